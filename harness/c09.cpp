// C09: all comparisons agree with std::optional.
#include "vp.h"
#define COMMA ,

namespace
{
struct Rec
{
  int op, l, r;
};
struct CmpWorld
{
  bool res[8]; // what the payload's operators answer, per operator
  bool thr;
  int three; // what <=> answers
  Rec log[4];
  int n;
  void note(int op, int l, int r)
  {
    if (n < 4)
      log[n] = Rec{op, l, r};
    ++n;
    if (thr)
      throw op;
  }
};
CmpWorld CW;

// Operators answer independently of each other and record who was asked.
template <int TAG>
struct Cmp
{
  int id;
  int v;
  Cmp(int i, int x) : id(i), v(x) {}
  Cmp(Cmp const & o) : id(o.id + 100), v(o.v) {} // a copy is recognised
  Cmp & operator=(Cmp const & o)
  {
    id = o.id + 100;
    v = o.v;
    return *this;
  }
};
#define CMP_OP(n, OP)                                                                                                  \
  template <int A, int B>                                                                                              \
  bool operator OP(Cmp<A> const & a, Cmp<B> const & b)                                                                 \
  {                                                                                                                    \
    CW.note(n, a.id, b.id);                                                                                            \
    return CW.res[n];                                                                                                  \
  }
CMP_OP(0, ==)
CMP_OP(1, !=)
CMP_OP(2, <)
CMP_OP(3, <=)
CMP_OP(4, >)
CMP_OP(5, >=)

#ifdef VP_CXX20
// Only == and <=>, partially ordered
template <int TAG>
struct Tri
{
  int id;
  int v;
  Tri(int i, int x) : id(i), v(x) {}
  Tri(Tri const & o) : id(o.id + 100), v(o.v) {}
  Tri & operator=(Tri const & o)
  {
    id = o.id + 100;
    v = o.v;
    return *this;
  }
  template <int B>
  bool operator==(Tri<B> const & b) const
  {
    CW.note(0, id, b.id);
    return CW.res[0];
  }
  template <int B>
  std::partial_ordering operator<=>(Tri<B> const & b) const
  {
    CW.note(6, id, b.id);
    // antisymmetric, because the language may evaluate x <=> y as the reverse of y <=> x
    bool const rev = id > b.id;
    switch (CW.three) {
    case 0: return rev ? std::partial_ordering::greater : std::partial_ordering::less;
    case 1: return rev ? std::partial_ordering::less : std::partial_ordering::greater;
    case 2: return std::partial_ordering::equivalent;
    default: return std::partial_ordering::unordered;
    }
  }
};
#endif

template <class P>
struct FM // whole payload: an id never used otherwise
{
  static bool is_empty(P const & p) noexcept { return p.id == -9; }
  static void init_empty_flag(P & p) noexcept
  {
    int m = -9;
    std::memcpy(static_cast<void *>(&p.id), &m, sizeof m);
  }
  static void invalidate_empty_flag(P &) noexcept {}
};

struct MemI
{
  int lead;
  int v;
};

// --- operands: how to make one ------------------------------------------------------------------------------------
template <class O>
struct Mk // optionals of class payloads
{
  static void fill(Arena<O> & A, bool engaged, int id, int v)
  {
    if (engaged)
      A.make(std::in_place, id, v);
    else
      A.make();
  }
  using type = O;
};

template <class X>
struct IsOpt : std::true_type
{
};
template <int T>
struct IsOpt<Cmp<T>> : std::false_type
{
};
#ifdef VP_CXX20
template <int T>
struct IsOpt<Tri<T>> : std::false_type
{
};
#endif
template <>
struct IsOpt<std::nullopt_t> : std::false_type
{
};

template <class X>
void make_class(Arena<X> & A, bool engaged, int id, int v)
{
  if constexpr (std::is_same_v<X, std::nullopt_t>)
    A.make(std::nullopt);
  else if constexpr (!IsOpt<X>::value)
    A.make(id, v);
  else if (engaged)
    A.make(std::in_place, id, v);
  else
    A.make();
}

// The result of operator number op: 0/1, or for <=>: 10 less, 11 greater, 12 equal, 13 unordered; 50: threw.
template <class L, class R>
int compare(unsigned op, L const & l, R const & r)
{
  try {
    switch (op) {
    case 0: return (l == r) ? 1 : 0;
    case 1: return (l != r) ? 1 : 0;
    case 2: return (l < r) ? 1 : 0;
    case 3: return (l <= r) ? 1 : 0;
    case 4: return (l > r) ? 1 : 0;
    case 5: return (l >= r) ? 1 : 0;
    default: break;
    }
  }
  catch (int code) {
    return 50 + code;
  }
  return -1;
}
#ifdef VP_CXX20
template <class L, class R>
int compare3(L const & l, R const & r)
{
  try {
    auto const c = l <=> r;
    if (c < 0)
      return 10;
    if (c > 0)
      return 11;
    if (c == 0)
      return 12;
    return 13;
  }
  catch (int code) {
    return 50 + code;
  }
}
#endif

struct Res
{
  int r;
  Rec log[4];
  int n;
};

template <bool THREE, class L, class R>
void one(unsigned op, bool le, bool re, int vl, int vr, Res & out)
{
  Arena<L> A("lhs");
  Arena<R> B("rhs");
  make_class<L>(A, le, 1, vl);
  make_class<R>(B, re, 2, vr);
  CW.n = 0;
#ifdef VP_CXX20
  if constexpr (THREE)
    if (op == 6)
      out.r = compare3(*A.obj, *B.obj);
#endif
  if (op < 6)
    out.r = compare(op, *A.obj, *B.obj);
  out.n = CW.n;
  for (int i = 0; i < 4; ++i)
    out.log[i] = i < CW.n ? CW.log[i] : Rec{0, 0, 0};
  CHECK(A.guards_intact() && B.guards_intact(), "neighbours untouched");
  if constexpr (IsOpt<L>::value) {
    CHECK(A.obj->has_value() == le, "lhs state unchanged");
    if (le)
      CHECK((**A.obj).id == 1 && (**A.obj).v == vl, "lhs value unchanged");
  }
  if constexpr (IsOpt<R>::value) {
    CHECK(B.obj->has_value() == re, "rhs state unchanged");
    if (re)
      CHECK((**B.obj).id == 2 && (**B.obj).v == vr, "rhs value unchanged");
  }
  A.destroy();
  B.destroy();
}

// SL, SR: the operands with std::optional in place of tiny's
template <bool THREE, class L, class R, class SL, class SR>
void agree()
{
  unsigned const op = vp_choose(THREE ? 7 : 6, "operator");
  bool const le = IsOpt<L>::value ? vp_choose(2, "lhs engaged") != 0 : true;
  bool const re = IsOpt<R>::value ? vp_choose(2, "rhs engaged") != 0 : true;
  for (int i = 0; i < 8; ++i)
    CW.res[i] = vp_bool("answer");
  CW.thr = vp_bool("throws");
  CW.three = static_cast<int>(vp_sym(2, "three-way answer"));
  int const vl = static_cast<int>(vp_sym(32, "vl")), vr = static_cast<int>(vp_sym(32, "vr"));
  vp_assume(vl != -5 && vr != -5);
  Res s, t;
  one<THREE, SL, SR>(op, le, re, vl, vr, s);
  one<THREE, L, R>(op, le, re, vl, vr, t);
  CHECK(s.r == t.r, "comparison result as std::optional");
  CHECK(t.n <= 1, "payload operator evaluated at most once");
  CHECK(s.n == t.n, "payload operator evaluated as often as by std::optional");
  if (t.n >= 1 && s.n >= 1) {
    CHECK(s.log[0].op == t.log[0].op, "the same payload operator as std::optional");
    if (op == 6) // C++20 reversed candidates
      CHECK((t.log[0].l == 1 && t.log[0].r == 2) || (t.log[0].l == 2 && t.log[0].r == 1), "both operands, no copies");
    else
      CHECK(s.log[0].l == t.log[0].l && s.log[0].r == t.log[0].r, "operands in the written order, no copies");
  }
  if (!(le && re) || std::is_same_v<L, std::nullopt_t> || std::is_same_v<R, std::nullopt_t>)
    CHECK(t.n == 0, "no payload operator when an operand is empty");
  vp_obs(static_cast<unsigned>(t.r));
  vp_obs(op);
  vp_cover(le && re ? "both" : "some empty");
}

// An optional compared with itself or with its own payload: no shortcut for identical objects.
template <bool THREE, class L, class R>
int compare_any(unsigned op, L const & l, R const & r)
{
#ifdef VP_CXX20
  if constexpr (THREE)
    if (op == 6)
      return compare3(l, r);
#endif
  return compare(op, l, r);
}
template <bool THREE, class O, class Make>
int one_self(unsigned op, unsigned with, Make make, int & n)
{
  Arena<O> A("self");
  make(A);
  O const & o = *A.obj;
  CW.n = 0;
  int const r = with == 0 ? compare_any<THREE>(op, o, o)
                : with == 1 ? compare_any<THREE>(op, o, *o)
                            : compare_any<THREE>(op, *o, o);
  n = CW.n;
  A.destroy();
  return r;
}
template <bool THREE, class O, class SO, class Make, class SMake>
void agree_self(Make make, SMake smake, bool engaged)
{
  unsigned const op = vp_choose(THREE ? 7 : 6, "operator"), with = engaged ? vp_choose(3, "with") : 0;
  int sn, tn;
  int const s = one_self<THREE, SO>(op, with, smake, sn);
  int const t = one_self<THREE, O>(op, with, make, tn);
  CHECK(s == t, "self comparison as std::optional");
  CHECK(sn == tn, "payload operator evaluated as often as by std::optional");
  vp_obs(static_cast<unsigned>(t));
  vp_cover(engaged ? "engaged" : "empty");
}
template <bool THREE, class O, class P>
void self_class()
{
  bool const e = vp_choose(2, "engaged") != 0;
  for (int i = 0; i < 8; ++i)
    CW.res[i] = vp_bool("answer");
  CW.thr = vp_bool("throws");
  CW.three = 2 + static_cast<int>(vp_sym(1, "three-way answer"));
  int const v = static_cast<int>(vp_sym(32, "v"));
  vp_assume(v != -5);
  agree_self<THREE, O, std::optional<P>>(
      [&](Arena<O> & A) { make_class<O>(A, e, 1, v); },
      [&](Arena<std::optional<P>> & A) { make_class<std::optional<P>>(A, e, 1, v); },
      e);
}

// --- plain payloads: all bit patterns -----------------------------------------------------------------------------
template <class X>
struct Plain
{
  static constexpr bool opt = false;
};
template <class O, class V>
void make_plain(Arena<O> & A, bool engaged, V const & v)
{
  if constexpr (std::is_same_v<O, std::nullopt_t>)
    A.make(std::nullopt);
  else if constexpr (std::is_arithmetic_v<O> || std::is_pointer_v<O>)
    A.make(v);
  else if (engaged)
    A.make(v);
  else
    A.make();
}
template <class O>
inline constexpr bool kIsPlainOpt = !std::is_arithmetic_v<O> && !std::is_pointer_v<O> && !std::is_same_v<O, std::nullopt_t>;

template <class L, class R, class VL, class VR>
int one_plain(unsigned op, bool le, bool re, VL const & vl, VR const & vr)
{
  Arena<L> A("lhs");
  Arena<R> B("rhs");
  make_plain<L>(A, le, vl);
  make_plain<R>(B, re, vr);
  int r;
#ifdef VP_CXX20
  if (op == 6)
    r = compare3(*A.obj, *B.obj);
  else
#endif
    r = compare(op, *A.obj, *B.obj);
  CHECK(A.guards_intact() && B.guards_intact(), "neighbours untouched");
  if constexpr (kIsPlainOpt<L>) {
    CHECK(A.obj->has_value() == le, "lhs state unchanged");
    if (le)
      CHECK(same_bits<VL>(**A.obj, vl), "lhs value unchanged");
  }
  if constexpr (kIsPlainOpt<R>) {
    CHECK(B.obj->has_value() == re, "rhs state unchanged");
    if (re)
      CHECK(same_bits<VR>(**B.obj, vr), "rhs value unchanged");
  }
  A.destroy();
  B.destroy();
  return r;
}
template <class L, class R, class SL, class SR, class VL, class VR, class OkL, class OkR>
void agree_plain(OkL okl, OkR okr)
{
#ifdef VP_CXX20
  unsigned const op = vp_choose(7, "operator");
#else
  unsigned const op = vp_choose(6, "operator");
#endif
  bool const le = kIsPlainOpt<L> ? vp_choose(2, "lhs engaged") != 0 : true;
  bool const re = kIsPlainOpt<R> ? vp_choose(2, "rhs engaged") != 0 : true;
  Any<VL> vl("vl");
  Any<VR> vr("vr");
  vp_assume(okl(vl.v) && okr(vr.v));
  int const s = one_plain<SL, SR>(op, le, re, vl.v, vr.v);
  int const t = one_plain<L, R>(op, le, re, vl.v, vr.v);
  CHECK(s == t, "comparison result as std::optional");
  vp_obs(static_cast<unsigned>(t));
  vp_obs(op);
  vp_cover(le && re ? "both" : "some empty");
}
} // namespace

// flavours of class payloads
using K = Cmp<1>;
using J = Cmp<2>;
template <class P>
using Sep = tiny::optional<P>;
template <class P>
using Mem = tiny::optional<P, &P::v, -5>;
template <class P>
using Inp = tiny::optional_inplace<P, FM<P>>;
template <class P>
using S = std::optional<P>;

#define AG(name, L, R, SL, SR)                                                                                         \
  VP_HARNESS(name) { agree<false, L, R, SL, SR>(); }
AG(k_sep_sep, Sep<K>, Sep<K>, S<K>, S<K>)
AG(k_sep_mem, Sep<K>, Mem<K>, S<K>, S<K>)
AG(k_mem_sep, Mem<K>, Sep<K>, S<K>, S<K>)
AG(k_mem_mem, Mem<K>, Mem<K>, S<K>, S<K>)
AG(k_inp_inp, Inp<K>, Inp<K>, S<K>, S<K>)
AG(k_sep_inp, Sep<K>, Inp<K>, S<K>, S<K>)
AG(k_inp_mem, Inp<K>, Mem<K>, S<K>, S<K>)
AG(kj_sep_sep, Sep<K>, Sep<J>, S<K>, S<J>)
AG(kj_sep_mem, Sep<K>, Mem<J>, S<K>, S<J>)
AG(kj_mem_inp, Mem<K>, Inp<J>, S<K>, S<J>)
AG(kj_inp_inp, Inp<K>, Inp<J>, S<K>, S<J>)
AG(k_sep_std, Sep<K>, S<K>, S<K>, S<K>)
AG(k_std_sep, S<K>, Sep<K>, S<K>, S<K>)
AG(k_mem_std, Mem<K>, S<K>, S<K>, S<K>)
AG(k_std_mem, S<K>, Mem<K>, S<K>, S<K>)
AG(k_inp_std, Inp<K>, S<K>, S<K>, S<K>)
AG(k_std_inp, S<K>, Inp<K>, S<K>, S<K>)
AG(kj_sep_std, Sep<K>, S<J>, S<K>, S<J>)
AG(kj_std_sep, S<K>, Sep<J>, S<K>, S<J>)
AG(kj_mem_std, Mem<K>, S<J>, S<K>, S<J>)
AG(kj_std_inp, S<K>, Inp<J>, S<K>, S<J>)
AG(kj_inp_std, Inp<K>, S<J>, S<K>, S<J>)
AG(k_sep_val, Sep<K>, K, S<K>, K)
AG(k_val_sep, K, Sep<K>, K, S<K>)
AG(k_mem_val, Mem<K>, K, S<K>, K)
AG(k_val_mem, K, Mem<K>, K, S<K>)
AG(k_inp_val, Inp<K>, K, S<K>, K)
AG(k_val_inp, K, Inp<K>, K, S<K>)
AG(kj_sep_val, Sep<K>, J, S<K>, J)
AG(kj_val_sep, K, Sep<J>, K, S<J>)
AG(kj_inp_val, Inp<K>, J, S<K>, J)
AG(kj_val_mem, K, Mem<J>, K, S<J>)
AG(k_sep_null, Sep<K>, std::nullopt_t, S<K>, std::nullopt_t)
AG(k_null_sep, std::nullopt_t, Sep<K>, std::nullopt_t, S<K>)
AG(k_mem_null, Mem<K>, std::nullopt_t, S<K>, std::nullopt_t)
AG(k_null_mem, std::nullopt_t, Mem<K>, std::nullopt_t, S<K>)
AG(k_inp_null, Inp<K>, std::nullopt_t, S<K>, std::nullopt_t)
AG(k_null_inp, std::nullopt_t, Inp<K>, std::nullopt_t, S<K>)
VP_HARNESS(self_sep) { self_class<false, Sep<K>, K>(); }
VP_HARNESS(self_mem) { self_class<false, Mem<K>, K>(); }
VP_HARNESS(self_inp) { self_class<false, Inp<K>, K>(); }
template <class O, class V, class Ok>
static void self_plain(Ok ok)
{
  bool const e = vp_choose(2, "engaged") != 0;
  Any<V> v("v");
  vp_assume(ok(v.v));
#ifdef VP_CXX20
  constexpr bool three = true;
#else
  constexpr bool three = false;
#endif
  agree_self<three, O, std::optional<V>>(
      [&](Arena<O> & A) { make_plain<O>(A, e, v.v); }, [&](Arena<std::optional<V>> & A) { make_plain<std::optional<V>>(A, e, v.v); }, e);
}
VP_HARNESS(self_double) { self_plain<tiny::optional<double>, double>([](double v) { return bits_of(v) != 0x7ff8fedcba987654ull; }); }
VP_HARNESS(self_float) { self_plain<tiny::optional<float>, float>([](float v) { return bits_of(v) != 0x7fedcba9ull; }); }
struct SentMinusTwo
{
  static constexpr double value = -2.0;
};
VP_HARNESS(self_dsent)
{
  self_plain<tiny::optional_sentinel_via_type<double, SentMinusTwo>, double>([](double v) { return v != -2.0; });
}
VP_HARNESS(self_int) { self_plain<tiny::optional<int>, int>([](int) { return true; }); }
VP_HARNESS(self_aip) { self_plain<tiny::optional_aip<unsigned>, unsigned>([](unsigned v) { return v != UINT_MAX; }); }
#ifdef VP_CXX20
using T = Tri<1>;
using U = Tri<2>;
VP_HARNESS(self_t_sep) { self_class<true, Sep<T>, T>(); }
VP_HARNESS(self_t_mem) { self_class<true, Mem<T>, T>(); }
VP_HARNESS(self_t_inp) { self_class<true, Inp<T>, T>(); }
  #define AG3(name, L, R, SL, SR)                                                                                      \
    VP_HARNESS(name) { agree<true, L, R, SL, SR>(); }
AG3(t_sep_sep, Sep<T>, Sep<T>, S<T>, S<T>)
AG3(t_sep_mem, Sep<T>, Mem<T>, S<T>, S<T>)
AG3(t_mem_inp, Mem<T>, Inp<T>, S<T>, S<T>)
AG3(t_inp_inp, Inp<T>, Inp<T>, S<T>, S<T>)
AG3(t_sep_std, Sep<T>, S<T>, S<T>, S<T>)
AG3(t_std_sep, S<T>, Sep<T>, S<T>, S<T>)
AG3(t_mem_std, Mem<T>, S<T>, S<T>, S<T>)
AG3(t_std_mem, S<T>, Mem<T>, S<T>, S<T>)
AG3(t_inp_std, Inp<T>, S<T>, S<T>, S<T>)
AG3(t_sep_val, Sep<T>, T, S<T>, T)
AG3(t_val_sep, T, Sep<T>, T, S<T>)
AG3(t_mem_val, Mem<T>, T, S<T>, T)
AG3(t_inp_val, Inp<T>, T, S<T>, T)
AG3(t_val_inp, T, Inp<T>, T, S<T>)
AG3(t_sep_null, Sep<T>, std::nullopt_t, S<T>, std::nullopt_t)
AG3(t_null_sep, std::nullopt_t, Sep<T>, std::nullopt_t, S<T>)
AG3(t_mem_null, Mem<T>, std::nullopt_t, S<T>, std::nullopt_t)
AG3(t_null_mem, std::nullopt_t, Mem<T>, std::nullopt_t, S<T>)
AG3(t_inp_null, Inp<T>, std::nullopt_t, S<T>, std::nullopt_t)
AG3(t_null_inp, std::nullopt_t, Inp<T>, std::nullopt_t, S<T>)
#endif

// plain payloads
struct Min
{
  static constexpr int value = INT_MIN;
};
template <class V>
static bool any(V const &)
{
  return true;
}
static bool dbl(double const & d)
{
  return !kBits || bits_of(d) != 0x7ff8fedcba987654ull;
}
static bool flt(float const & d)
{
  return !kBits || bits_of(d) != 0x7fedcba9u;
}
static bool not42(int const & v)
{
  return v != 42;
}
static bool notmin(int const & v)
{
  return v != INT_MIN;
}
static bool notmaxu(unsigned const & v)
{
  return v != UINT_MAX;
}
#define AP(name, L, R, SL, SR, VL, VR, okl, okr)                                                                       \
  VP_HARNESS(name) { agree_plain<L, R, SL, SR, VL, VR>(okl, okr); }
using N = std::nullopt_t;
AP(p_int_int, tiny::optional<int>, tiny::optional<int>, S<int>, S<int>, int, int, any<int>, any<int>)
AP(p_int_int42, tiny::optional<int>, tiny::optional<int COMMA 42>, S<int>, S<int>, int, int, any<int>, not42)
AP(p_int42_via, tiny::optional<int COMMA 42>, tiny::optional_sentinel_via_type<int COMMA Min>, S<int>, S<int>, int, int, not42, notmin)
AP(p_aip_int, tiny::optional_aip<int>, tiny::optional<int>, S<int>, S<int>, int, int, notmin, any<int>)
AP(p_via_aip, tiny::optional_sentinel_via_type<int COMMA Min>, tiny::optional_aip<int>, S<int>, S<int>, int, int, notmin, notmin)
AP(p_aip_std, tiny::optional_aip<int>, S<int>, S<int>, S<int>, int, int, notmin, any<int>)
AP(p_std_aip, S<int>, tiny::optional_aip<int>, S<int>, S<int>, int, int, any<int>, notmin)
AP(p_via_std, tiny::optional_sentinel_via_type<int COMMA Min>, S<int>, S<int>, S<int>, int, int, notmin, any<int>)
AP(p_std_via, S<int>, tiny::optional_sentinel_via_type<int COMMA Min>, S<int>, S<int>, int, int, any<int>, notmin)
AP(p_42_val, tiny::optional<int COMMA 42>, int, S<int>, int, int, int, not42, any<int>)
AP(p_val_42, int, tiny::optional<int COMMA 42>, int, S<int>, int, int, any<int>, not42)
AP(p_via_val, tiny::optional_sentinel_via_type<int COMMA Min>, int, S<int>, int, int, int, notmin, any<int>)
AP(p_val_aip, int, tiny::optional_aip<int>, int, S<int>, int, int, any<int>, notmin)
AP(p_42_null, tiny::optional<int COMMA 42>, N, S<int>, N, int, int, not42, any<int>)
AP(p_null_via, N, tiny::optional_sentinel_via_type<int COMMA Min>, N, S<int>, int, int, any<int>, notmin)
AP(p_int_long, tiny::optional<int>, tiny::optional<long long>, S<int>, S<long long>, int, long long, any<int>, any<long long>)
AP(p_long_std_short, tiny::optional<long long>, S<short>, S<long long>, S<short>, long long, short, any<long long>, any<short>)
AP(p_int_valchar, tiny::optional<int>, signed char, S<int>, signed char, int, signed char, any<int>, any<signed char>)
AP(p_uns_uns, tiny::optional_aip<unsigned>, tiny::optional<unsigned>, S<unsigned>, S<unsigned>, unsigned, unsigned, notmaxu, any<unsigned>)
AP(p_dbl_dbl, tiny::optional<double>, tiny::optional<double>, S<double>, S<double>, double, double, dbl, dbl)
AP(p_dbl_std, tiny::optional<double>, S<double>, S<double>, S<double>, double, double, dbl, any<double>)
AP(p_std_dbl, S<double>, tiny::optional<double>, S<double>, S<double>, double, double, any<double>, dbl)
AP(p_dbl_val, tiny::optional<double>, double, S<double>, double, double, double, dbl, any<double>)
AP(p_val_dbl, double, tiny::optional<double>, double, S<double>, double, double, any<double>, dbl)
AP(p_dbl_null, tiny::optional<double>, N, S<double>, N, double, int, dbl, any<int>)
AP(p_null_dbl, N, tiny::optional<double>, N, S<double>, int, double, any<int>, dbl)
AP(p_flt_dbl, tiny::optional<float>, tiny::optional<double>, S<float>, S<double>, float, double, flt, dbl)
AP(p_flt_val, tiny::optional<float>, float, S<float>, float, float, float, flt, any<float>)
AP(p_val_dblint, int, tiny::optional<double>, int, S<double>, int, double, any<int>, dbl)
AP(p_bool_bool, tiny::optional<bool>, tiny::optional<bool>, S<bool>, S<bool>, bool, bool, any<bool>, any<bool>)
AP(p_bool_val, tiny::optional<bool>, bool, S<bool>, bool, bool, bool, any<bool>, any<bool>)
AP(p_std_bool, S<bool>, tiny::optional<bool>, S<bool>, S<bool>, bool, bool, any<bool>, any<bool>)
AP(p_null_bool, N, tiny::optional<bool>, N, S<bool>, int, bool, any<int>, any<bool>)
AP(p_cint_int, tiny::optional<int const>, tiny::optional<int>, S<int const>, S<int>, int, int, any<int>, any<int>)
AP(p_cint_val, tiny::optional<int const>, int, S<int const>, int, int, int, any<int>, any<int>)

// pointers into one array
static int g_arr[8];
template <class L, class R, class SL, class SR>
static void ptrs()
{
  unsigned const op = vp_choose(6, "operator");
  bool const le = vp_choose(2, "lhs engaged") != 0, re = kIsPlainOpt<R> ? vp_choose(2, "rhs engaged") != 0 : true;
  int * p = g_arr + vp_sym(3, "i");
  int * q = g_arr + vp_sym(3, "j");
  int const s = one_plain<SL, SR>(op, le, re, p, q);
  int const t = one_plain<L, R>(op, le, re, p, q);
  CHECK(s == t, "comparison result as std::optional");
  vp_obs(static_cast<unsigned>(t));
  vp_cover(le && re ? "both" : "some empty");
}
VP_HARNESS(p_ptr_ptr) { ptrs<tiny::optional<int *>, tiny::optional<int *>, S<int *>, S<int *>>(); }
VP_HARNESS(p_ptr_std) { ptrs<tiny::optional<int *>, S<int *>, S<int *>, S<int *>>(); }
VP_HARNESS(p_ptr_val) { ptrs<tiny::optional<int *>, int *, S<int *>, int *>(); }

// nested optionals: state 0 empty, 1 engaged with empty, 2 engaged with value
template <class O, class I>
static void nest(O & o, unsigned st, int v)
{
  if (st == 1)
    o.emplace();
  else if (st == 2)
    o.emplace(I(v));
}
template <class O, class I, class R, class MkR>
static int nested_one(unsigned op, unsigned sl, int vl, MkR mk)
{
  O l;
  nest<O, I>(l, sl, vl);
  R r = mk();
  return compare(op, l, r);
}
VP_HARNESS(nested_tiny_tiny)
{
  using I = tiny::optional<int>;
  using SI = std::optional<int>;
  using O = tiny::optional<I>;
  using SO = std::optional<SI>;
  unsigned const op = vp_choose(6, "operator"), sl = vp_choose(3, "lhs"), sr = vp_choose(3, "rhs");
  int vl = static_cast<int>(vp_sym(32, "vl")), vr = static_cast<int>(vp_sym(32, "vr"));
  SO a, b;
  nest<SO, SI>(a, sl, vl);
  nest<SO, SI>(b, sr, vr);
  O c, d;
  nest<O, I>(c, sl, vl);
  nest<O, I>(d, sr, vr);
  int const s = compare(op, a, b), t = compare(op, c, d);
  CHECK(s == t, "nested comparison as std::optional");
  // against nullopt
  // (reference: a flat std::optional, because gcc's own nullopt < std::optional<std::optional<T>> suffers from CWG 2445)
  std::optional<int> flat;
  if (sl)
    flat = vl;
  CHECK(compare(op, flat, std::nullopt) == compare(op, c, std::nullopt), "nested against nullopt");
  CHECK(compare(op, std::nullopt, flat) == compare(op, std::nullopt, c), "nullopt against nested");
  vp_obs(static_cast<unsigned>(t));
  vp_cover("nested");
}
