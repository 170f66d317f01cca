// C19: conversions and constructors forward the given arguments exactly.
#include "life.h"

namespace
{
// --- numeric conversions --------------------------------------------------------------------------------------
template <class T, class U>
bool convertible_value(U u) // is T(u) defined?
{
  if constexpr (std::is_floating_point_v<U> && std::is_integral_v<T> && !std::is_same_v<T, bool>) {
    // strictly inside: truncation toward zero stays representable
    long double const lo = static_cast<long double>(std::numeric_limits<T>::min());
    (void)lo;
    if constexpr (sizeof(T) == 8)
      return u >= (std::is_signed_v<T> ? -9.0e18 : 0.0) && u <= 9.0e18;
    else
      return u >= static_cast<U>(static_cast<double>(std::numeric_limits<T>::min()))
             && u <= static_cast<U>(static_cast<double>(std::numeric_limits<T>::max() - (sizeof(T) == 4 ? 128 : 0)));
  }
  else if constexpr (std::is_same_v<U, double> && std::is_same_v<T, float>)
    return u == u && u < 3.0e38 && u > -3.0e38;
  else if constexpr (std::is_floating_point_v<U>)
    return u == u;
  else
    return true;
}

inline constexpr unsigned kConv = 16;
template <class O, class T, class U, auto... S>
void convert()
{
  Any<U> u("u"), first("first");
  vp_assume(convertible_value<T>(u.v) && convertible_value<T>(first.v));
  T const want = static_cast<T>(u.v);
  T const old = static_cast<T>(first.v);
  if constexpr (sizeof...(S) > 0) {
    vp_assume(want != static_cast<T>((S, ...)));
    vp_assume(old != static_cast<T>((S, ...)));
  }
  U const cu = u.v;
  U before = u.v;
  unsigned const how = vp_choose(kConv, "how");
  Arena<O> A("mem");
  switch (how) {
  case 0: A.make(u.v); break;
  case 1: A.make(cu); break;
  case 2: A.make(static_cast<U &&>(u.v)); break;
  case 3: A.make(std::in_place, u.v); break;
  case 4: A.make(std::in_place, cu); break;
  case 5: A.make(std::in_place, static_cast<U &&>(u.v)); break;
  case 6: A.make() = u.v; break;
  case 7: A.make() = static_cast<U &&>(u.v); break;
  case 8: A.make(std::in_place, first.v) = u.v; break;
  case 9: A.make(first.v) = cu; break;
  case 10: {
    auto & r = A.make().emplace(u.v);
    CHECK(std::addressof(r) == std::addressof(**A.obj), "emplace returns the payload");
    break;
  }
  case 11: A.make(first.v).emplace(cu); break;
  case 12: {
    A.make(first.v).reset();
    *A.obj = cu;
    break;
  }
  case 13: A.make(tiny::make_optional<T, S...>(u.v)); break;
  case 14: A.make(tiny::make_optional<T, S...>(static_cast<U &&>(u.v))); break;
  case 15: A.make(O{u.v}); break;
  default: break;
  }
  CHECK(A.obj->has_value(), "a value was given");
  CHECK(same_bits<T>(**A.obj, want), "the payload is the converted argument");
  CHECK(same_bits<U>(u.v, before), "a plain argument is not modified");
  CHECK(A.guards_intact(), "neighbours");
  vp_obs(how);
  vp_cover("converted");
}

template <class T, class U>
void conv_plain()
{
  convert<tiny::optional<T>, T, U>();
}

#define CONV(name, T, U) \
  VP_HARNESS(conv_##name) { conv_plain<T, U>(); }
// separate flag
CONV(int_from_schar, int, signed char)
CONV(int_from_ushort, int, unsigned short)
CONV(int_from_uint, int, unsigned)
CONV(int_from_ll, int, long long)
CONV(short_from_int, short, int)
CONV(uchar_from_int, unsigned char, int)
CONV(char_from_uchar, char, unsigned char)
CONV(ull_from_int, unsigned long long, int)
CONV(ll_from_uint, long long, unsigned)
CONV(int_from_bool, int, bool)
CONV(int_from_double, int, double)
CONV(schar_from_float, signed char, float)
CONV(ll_from_double, long long, double)
// unused bits
CONV(bool_from_int, bool, int)
CONV(bool_from_ull, bool, unsigned long long)
CONV(bool_from_double, bool, double)
CONV(double_from_int, double, int)
CONV(double_from_ll, double, long long)
CONV(double_from_ull, double, unsigned long long)
CONV(double_from_float, double, float)
CONV(float_from_double, float, double)
CONV(float_from_int, float, int)
CONV(float_from_bool, float, bool)

VP_HARNESS(conv_sentinel_int_ll) { convert<tiny::optional<int, 42>, int, long long, 42>(); }
VP_HARNESS(conv_sentinel_uint_int) { convert<tiny::optional<unsigned, 0xffffffffu>, unsigned, int, 0xffffffffu>(); }
VP_HARNESS(conv_sentinel_schar_int) { convert<tiny::optional<signed char, -1>, signed char, int, -1>(); }
VP_HARNESS(conv_sentinel_ushort_double) { convert<tiny::optional<unsigned short, 7>, unsigned short, double, 7>(); }

// optional_aip and sentinel via type: no make_optional
struct Minus1
{
  static constexpr long long value = -1;
};
template <class O, class T, class U>
void convert_other(T sentinel)
{
  Any<U> u("u"), first("first");
  vp_assume(convertible_value<T>(u.v) && convertible_value<T>(first.v));
  T const want = static_cast<T>(u.v), old = static_cast<T>(first.v);
  vp_assume(want != sentinel && old != sentinel);
  Arena<O> A("mem");
  unsigned const how = vp_choose(7, "how");
  switch (how) {
  case 0: A.make(u.v); break;
  case 1: A.make(std::in_place, u.v); break;
  case 2: A.make() = u.v; break;
  case 3: A.make(first.v) = u.v; break;
  case 4: A.make().emplace(u.v); break;
  case 5: A.make(first.v).emplace(static_cast<U &&>(u.v)); break;
  case 6: {
    A.make(first.v) = std::nullopt;
    *A.obj = static_cast<U &&>(u.v);
    break;
  }
  default: break;
  }
  CHECK(A.obj->has_value(), "a value was given");
  CHECK(same_bits<T>(**A.obj, want), "the payload is the converted argument");
  CHECK(A.guards_intact(), "neighbours");
  vp_obs(how);
  vp_cover("converted");
}
VP_HARNESS(conv_aip_int_ll) { convert_other<tiny::optional_aip<int>, int, long long>(INT_MIN); }
VP_HARNESS(conv_aip_ushort_int) { convert_other<tiny::optional_aip<unsigned short>, unsigned short, int>(USHRT_MAX); }
VP_HARNESS(conv_aip_ull_double) { convert_other<tiny::optional_aip<unsigned long long>, unsigned long long, double>(ULLONG_MAX); }
VP_HARNESS(conv_aip_sent) { convert_other<tiny::optional_aip<short, -1>, short, long>(-1); }
VP_HARNESS(conv_via_type) { convert_other<tiny::optional_sentinel_via_type<long long, Minus1>, long long, unsigned>(-1); }

// deduction: make_optional(v), optional(v)
template <class T>
void deduced()
{
  Any<T> v("v");
  if constexpr (std::is_floating_point_v<T>)
    vp_assume(v.v == v.v);
  T const cv = v.v;
  {
    auto a = tiny::make_optional(v.v);
    auto b = tiny::make_optional(cv);
    auto c = tiny::make_optional(static_cast<T &&>(v.v));
    tiny::optional d(v.v);
    tiny::optional e = cv;
    static_assert(std::is_same_v<decltype(a), tiny::optional<T>>);
    static_assert(std::is_same_v<decltype(b), tiny::optional<T>>);
    static_assert(std::is_same_v<decltype(c), tiny::optional<T>>);
    static_assert(std::is_same_v<decltype(d), tiny::optional<T>>);
    static_assert(std::is_same_v<decltype(e), tiny::optional<T>>);
    CHECK(a.has_value() && same_bits<T>(*a, cv), "make_optional(lvalue)");
    CHECK(b.has_value() && same_bits<T>(*b, cv), "make_optional(const lvalue)");
    CHECK(c.has_value() && same_bits<T>(*c, cv), "make_optional(rvalue)");
    CHECK(d.has_value() && same_bits<T>(*d, cv), "optional(lvalue)");
    CHECK(e.has_value() && same_bits<T>(*e, cv), "optional = const lvalue");
  }
  vp_cover("deduced");
}
VP_HARNESS(deduced_int) { deduced<int>(); }
VP_HARNESS(deduced_bool) { deduced<bool>(); }
VP_HARNESS(deduced_double) { deduced<double>(); }
VP_HARNESS(deduced_float) { deduced<float>(); }
VP_HARNESS(deduced_ll) { deduced<long long>(); }
VP_HARNESS(deduced_uchar) { deduced<unsigned char>(); }

VP_HARNESS(make_sentinel)
{
  int const x = vp_int("x");
  vp_assume(x != 42);
  unsigned const how = vp_choose(3, "how");
  Arena<tiny::optional<int, 42>> A("mem");
  if (how == 0)
    A.make(tiny::make_optional<int, 42>(x));
  else if (how == 1)
    A.make(tiny::make_optional<int, 42>(static_cast<long long>(x)));
  else {
    auto o = tiny::make_optional<int, 42>();
    CHECK(o.has_value() && *o == 0, "make_optional<T>() holds a value-initialised payload");
    vp_cover("value initialised");
    return;
  }
  CHECK(A.obj->has_value() && **A.obj == x, "make_optional with sentinel");
  vp_cover("sentinel");
}

// --- argument forwarding ---------------------------------------------------------------------------------------
// Records for each constructor argument: address and value category it arrived with.
enum : int { fL = 1, fCL, fR, fCR };
struct Arg
{
  int v;
};
struct Trace
{
  void const * addr[3];
  int cat[3];
  int n, calls;
};
Trace T0;
template <class X>
void arrived(X && x)
{
  using R = std::remove_reference_t<X>;
  int const i = T0.n < 3 ? T0.n : 2;
  T0.addr[i] = &x;
  T0.cat[i] = std::is_lvalue_reference_v<X> ? (std::is_const_v<R> ? fCL : fL) : (std::is_const_v<R> ? fCR : fR);
  ++T0.n;
}
struct Fwd
{
  int v;
  int kind; // which constructor
  double d; // flag member
  bool b;
  Fwd() : v(-9), kind(10), d(0.5), b(false) { ++T0.calls; }
  template <class A, class B>
  Fwd(A && a, B && x) : v(a.v ^ (x.v << 1)), kind(2), d(0.25), b(true)
  {
    arrived(std::forward<A>(a));
    arrived(std::forward<B>(x));
    ++T0.calls;
  }
  template <class A, class B, class C>
  Fwd(A && a, B && x, C && c) : v(a.v ^ (x.v << 1) ^ (c.v << 2)), kind(3), d(0.25), b(true)
  {
    arrived(std::forward<A>(a));
    arrived(std::forward<B>(x));
    arrived(std::forward<C>(c));
    ++T0.calls;
  }
  template <class A>
  Fwd(std::initializer_list<int> il, A && a) : v(a.v), kind(4), d(0.25), b(true)
  {
    for (int i : il)
      v = v * 2 + i;
    arrived(std::forward<A>(a));
    ++T0.calls;
  }
  Fwd(std::initializer_list<int> il) : v(0), kind(5), d(0.25), b(true)
  {
    for (int i : il)
      v = v * 2 + i;
    ++T0.calls;
  }
  Fwd(Fwd const &) = delete;
  Fwd & operator=(Fwd const &) = delete;
};

template <class O>
void fwd_many()
{
  Arg a{vp_int("a")}, b{vp_int("b")}, c{vp_int("c")};
  Arg const & ca = a;
  unsigned const target = vp_choose(4, "target"), pat = vp_choose(5, "pattern");
  Arena<O> A("mem");
  T0 = Trace{};
  auto run = [&](auto &&... args) {
    switch (target) {
    case 0: A.make(std::in_place, std::forward<decltype(args)>(args)...); break;
    case 1: {
      A.make();
      T0 = Trace{};
      auto & r = A.obj->emplace(std::forward<decltype(args)>(args)...);
      CHECK(&r == &**A.obj, "emplace returns the payload");
      break;
    }
    case 2: {
      A.make(std::in_place, std::forward<decltype(args)>(args)...);
      T0 = Trace{};
      auto & r = A.obj->emplace(std::forward<decltype(args)>(args)...);
      CHECK(&r == &**A.obj, "emplace returns the payload");
      break;
    }
    case 3: {
      A.make(std::in_place);
      A.obj->reset();
      T0 = Trace{};
      A.obj->emplace(std::forward<decltype(args)>(args)...);
      break;
    }
    default: break;
    }
  };
  int n = 0;
  int cat[3] = {0, 0, 0};
  switch (pat) {
  case 0: run(a, std::move(b)); n = 2; cat[0] = fL; cat[1] = fR; break;
  case 1: run(std::move(a), b, std::move(c)); n = 3; cat[0] = fR; cat[1] = fL; cat[2] = fR; break;
  case 2: run(ca, b); n = 2; cat[0] = fCL; cat[1] = fL; break;
  case 3: run(std::move(ca), b, c); n = 3; cat[0] = fCR; cat[1] = fL; cat[2] = fL; break;
  case 4: run(); n = 0; break;
  default: break;
  }
  CHECK(A.obj->has_value(), "engaged");
  CHECK(T0.calls == 1, "one construction");
  CHECK(T0.n == n, "every argument arrives once");
  if (n == 0) {
    CHECK((*A.obj)->kind == 10 && (*A.obj)->v == -9, "default constructed payload");
  }
  else {
    void const * addr[3] = {&a, &b, &c};
    for (int i = 0; i < n; ++i) {
      CHECK(T0.addr[i] == addr[i], "the argument itself arrives");
      CHECK(T0.cat[i] == cat[i], "in its own value category");
    }
    unsigned want = static_cast<unsigned>(a.v) ^ (static_cast<unsigned>(b.v) << 1);
    if (n == 3)
      want ^= static_cast<unsigned>(c.v) << 2;
    CHECK((*A.obj)->kind == n && static_cast<unsigned>((*A.obj)->v) == want, "payload as by direct construction");
  }
  vp_obs(static_cast<unsigned>((*A.obj)->v));
  A.destroy();
  CHECK(A.guards_intact(), "neighbours");
  vp_cover("forwarded");
}
template <class O>
void fwd_il()
{
  int const x = static_cast<signed char>(vp_sym(8, "x")), y = static_cast<signed char>(vp_sym(8, "y"));
  Arg a{static_cast<signed char>(vp_sym(8, "a"))};
  Arg const & ca = a;
  unsigned const how = vp_choose(8, "how");
  Arena<O> A("mem");
  T0 = Trace{};
  bool extra = true;
  int cat = fL;
  switch (how) {
  case 0: A.obj = ::new (static_cast<void *>(A.mem)) O(std::in_place, {x, y}, a); break;
  case 1: A.obj = ::new (static_cast<void *>(A.mem)) O(std::in_place, {x, y}, std::move(a)); cat = fR; break;
  case 2: A.obj = ::new (static_cast<void *>(A.mem)) O(std::in_place, {x, y}); extra = false; break;
  case 3: A.make().emplace({x, y}, ca); cat = fCL; break;
  case 4: A.make().emplace({x, y}); extra = false; break;
  case 5: {
    A.make(std::in_place);
    T0 = Trace{};
    A.obj->emplace({x, y}, std::move(a));
    cat = fR;
    break;
  }
  case 6: {
    A.make(std::in_place);
    T0 = Trace{};
    auto & r = A.obj->emplace({x, y});
    CHECK(&r == &**A.obj, "emplace returns the payload");
    extra = false;
    break;
  }
  case 7: {
    A.obj = ::new (static_cast<void *>(A.mem)) O(std::in_place, {y});
    A.obj->reset();
    T0 = Trace{};
    auto & r = A.obj->emplace({x, y}, a);
    CHECK(&r == &**A.obj, "emplace returns the payload");
    break;
  }
  default: break;
  }
  CHECK(A.obj->has_value() && T0.calls == 1, "one construction");
  CHECK((*A.obj)->kind == (extra ? 4 : 5), "the initializer_list constructor");
  CHECK((*A.obj)->v == ((extra ? a.v : 0) * 2 + x) * 2 + y, "payload as by direct construction");
  if (extra)
    CHECK(T0.n == 1 && T0.addr[0] == &a && T0.cat[0] == cat, "the extra argument is forwarded");
  vp_obs(static_cast<unsigned>((*A.obj)->v));
  A.destroy();
  CHECK(A.guards_intact(), "neighbours");
  vp_cover("il");
}
struct FwdFM
{
  static bool is_empty(Fwd const & p) noexcept { return p.kind == -3; }
  static void init_empty_flag(Fwd & p) noexcept { std::memset(static_cast<void *>(&p.kind), 0, 4), p.kind = -3; }
  static void invalidate_empty_flag(Fwd &) noexcept {}
};
} // namespace

namespace
{
#define FWD(name, O) \
  VP_HARNESS(fwd_##name) { fwd_many<O>(); }
using FwdBool = tiny::optional<Fwd>;
using FwdMemB = tiny::optional<Fwd, &Fwd::b>;
using FwdMemD = tiny::optional<Fwd, &Fwd::d>;
using FwdMemS = tiny::optional<Fwd, &Fwd::kind, -3>;
using FwdInpl = tiny::optional_inplace<Fwd, FwdFM>;
FWD(separate, FwdBool)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
FWD(member_bool, FwdMemB)
FWD(member_double, FwdMemD)
#endif
FWD(member_sentinel, FwdMemS)
FWD(inplace, FwdInpl)

#define FIL(name, O) \
  VP_HARNESS(il_##name) { fwd_il<O>(); }
FIL(separate, FwdBool)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
FIL(member_bool, FwdMemB)
#endif
FIL(member_sentinel, FwdMemS)
FIL(inplace, FwdInpl)

// make_optional returning immovable payloads (guaranteed elision) with forwarded arguments
VP_HARNESS(make_forwards)
{
  Arg a{static_cast<signed char>(vp_sym(8, "a"))}, b{static_cast<signed char>(vp_sym(8, "b"))};
  Arg const & cb = b;
  int const x = static_cast<signed char>(vp_sym(8, "x"));
  unsigned const how = vp_choose(6, "how");
  T0 = Trace{};
  auto const two = [&](auto const & o, int c0, int c1) {
    CHECK(o.has_value() && T0.calls == 1 && T0.n == 2, "one construction");
    CHECK(T0.addr[0] == &a && T0.cat[0] == c0, "first argument");
    CHECK(T0.addr[1] == &b && T0.cat[1] == c1, "second argument");
    CHECK(o->kind == 2 && o->v == (a.v ^ (b.v << 1)), "payload");
    vp_cover("two");
  };
  auto const il = [&](auto const & o, bool extra) {
    CHECK(o.has_value() && T0.calls == 1 && T0.n == (extra ? 1 : 0), "one construction");
    CHECK(o->kind == (extra ? 4 : 5) && o->v == (extra ? a.v : 0) * 2 + x, "payload");
    if (extra)
      CHECK(T0.addr[0] == &a && T0.cat[0] == fR, "extra argument");
    vp_cover("il");
  };
  switch (how) {
  case 0: two(tiny::make_optional<Fwd>(a, std::move(b)), fL, fR); break;
  case 1: two(tiny::make_optional<Fwd, &Fwd::kind, -3>(std::move(a), cb), fR, fCL); break;
  case 2: il(tiny::make_optional<Fwd>({x}, std::move(a)), true); break;
  case 3: il(tiny::make_optional<Fwd, &Fwd::kind, -3>({x}, std::move(a)), true); break;
  case 4: il(tiny::make_optional<Fwd>({x}), false); break;
  case 5: {
    auto o = tiny::make_optional<Fwd>();
    CHECK(o.has_value() && T0.calls == 1 && o->kind == 10, "default constructed");
    vp_cover("default");
    break;
  }
  default: break;
  }
}

// --- one value: lvalues are copied, rvalues moved, exactly once ----------------------------------------------------
// Where the library may use a temporary (converting through T), std::optional is the oracle of the event sequence.
template <class O, class T>
void one_value()
{
  int const x = vp_int("x"), y = vp_int("y");
  vp_assume(x != kReserved && y != kReserved && x != kMovedFrom && y != kMovedFrom);
  unsigned const how = vp_choose(14, "how");
  bool const rval = how & 1;
  W.clear();
  {
    T src(x);
    T const & csrc = src;
    (void)csrc;
    Arena<O> A("mem");
    int kind = rval ? kMove : kCopy;
    auto begin = [&] {
      W.range(1, A.mem, sizeof A.mem);
      W.nlog = 0;
      W.recording = true;
    };
    switch (how / 2) {
    case 0: begin(); rval ? A.make(std::move(src)) : A.make(src); break;
    case 1: begin(); rval ? A.make(std::in_place, std::move(src)) : A.make(std::in_place, csrc); break;
    case 2: A.make(); begin(); rval ? (*A.obj = std::move(src)) : (*A.obj = src); break;
    case 3: A.make(std::in_place, y); begin(); rval ? (*A.obj = std::move(src)) : (*A.obj = csrc); kind = rval ? kMoveAsg : kCopyAsg; break;
    case 4: A.make(); begin(); rval ? A.obj->emplace(std::move(src)) : A.obj->emplace(src); break;
    case 5: A.make(std::in_place, y); begin(); rval ? A.obj->emplace(std::move(src)) : A.obj->emplace(csrc); break;
    case 6: A.make(std::in_place, y); A.obj->reset(); begin(); rval ? A.obj->emplace(std::move(src)) : A.obj->emplace(src); break;
    default: break;
    }
    W.recording = false;
    CHECK(A.obj->has_value() && (*A.obj)->v == x, "the value given");
    CHECK(src.v == (rval ? kMovedFrom : x), "lvalues are copied, rvalues moved");
    int const skip = how / 2 == 5 ? 1 : 0; // the old payload dies first
    CHECK(W.nlog == 1 + skip, "exactly one payload operation");
    CHECK(W.log[skip].kind == kind && W.log[skip].role == 1, "copy for lvalues, move for rvalues");
    A.destroy();
    vp_obs(how);
    vp_cover(rval ? "moved" : "copied");
  }
  CHECK(W.nlive == 0, "all payloads destroyed");
}
template <class O, class T>
void one_value_move_only()
{
  int const x = vp_int("x"), y = vp_int("y");
  vp_assume(x != kReserved && y != kReserved && x != kMovedFrom && y != kMovedFrom);
  unsigned const how = vp_choose(6, "how");
  W.clear();
  {
    T src(x);
    Arena<O> A("mem");
    switch (how) {
    case 0: A.make(std::move(src)); break;
    case 1: A.make(std::in_place, std::move(src)); break;
    case 2: A.make() = std::move(src); break;
    case 3: A.make(std::in_place, y) = std::move(src); break;
    case 4: A.make().emplace(std::move(src)); break;
    case 5: A.make(std::in_place, y).emplace(std::move(src)); break;
    default: break;
    }
    CHECK(A.obj->has_value() && (*A.obj)->v == x && src.v == kMovedFrom, "moved");
    A.destroy();
    vp_cover("moved");
  }
  CHECK(W.nlive == 0, "all payloads destroyed");
}
using TC = Tracked<false, false>;
using TN = Tracked<true, true>;
using RG = Registered<true, false>;
#define ONE(name, O, T) \
  VP_HARNESS(one_##name) { one_value<O, T>(); }
using OneSep = tiny::optional<TC>;
using OneMem = tiny::optional<TN, &TN::v, kReserved>;
using OneInp = tiny::optional_inplace<TN, TrackFM<TN>>;
using OneReg = tiny::optional<RG>;
ONE(separate, OneSep, TC)
ONE(member, OneMem, TN)
ONE(inplace, OneInp, TN)
ONE(registered, OneReg, RG)
using MO = MoveOnly<true>;
using OneMO = tiny::optional<MO>;
using OneMOI = tiny::optional_inplace<MO, TrackFM<MO>>;
VP_HARNESS(one_move_only) { one_value_move_only<OneMO, MO>(); }
VP_HARNESS(one_move_only_inplace) { one_value_move_only<OneMOI, MO>(); }

// make_optional(value)
VP_HARNESS(make_one)
{
  int const x = vp_int("x");
  vp_assume(x != kMovedFrom);
  bool const rval = vp_choose(2, "rvalue");
  W.clear();
  {
    TC src(x);
    W.recording = true;
    auto o = rval ? tiny::make_optional(std::move(src)) : tiny::make_optional(src);
    W.recording = false;
    static_assert(std::is_same_v<decltype(o), tiny::optional<TC>>);
    CHECK(W.nlog == 1 && W.log[0].kind == (rval ? kMove : kCopy), "exactly one copy or move");
    CHECK(o.has_value() && o->v == x && src.v == (rval ? kMovedFrom : x), "value");
    vp_cover("made");
  }
  CHECK(W.nlive == 0, "all payloads destroyed");
}

// --- conversion functions and explicit constructors: called exactly once, with the argument's category ------------
struct Conv
{
  int v;
  mutable int l, cl, r, cr;
  explicit Conv(int x) : v(x), l(0), cl(0), r(0), cr(0) {}
  operator int() & { return ++l, v; }
  operator int() const & { return ++cl, v + 1; }
  operator int() && { return ++r, v + 2; }
  operator int() const && { return ++cr, v + 3; }
};
template <class O>
void conv_op()
{
  int const x = static_cast<short>(vp_sym(16, "x"));
  Conv c(x), f(5);
  Conv const & cc = c;
  unsigned const how = vp_choose(5, "how"), cat = vp_choose(4, "category");
  Arena<O> A("mem");
  auto run = [&](auto && a) {
    using X = decltype(a);
    switch (how) {
    case 0: A.make(std::forward<X>(a)); break;
    case 1: A.make(std::in_place, std::forward<X>(a)); break;
    case 2: A.make() = std::forward<X>(a); break;
    case 3: A.make(static_cast<int>(f)) = std::forward<X>(a); break;
    case 4: A.make(static_cast<int>(f)).emplace(std::forward<X>(a)); break;
    default: break;
    }
  };
  vp_assume(x != 123 && x + 1 != 123 && x + 2 != 123 && x + 3 != 123);
  switch (cat) {
  case 0: run(c); break;
  case 1: run(cc); break;
  case 2: run(std::move(c)); break;
  case 3: run(std::move(cc)); break;
  default: break;
  }
  CHECK(c.l == (cat == 0) && c.cl == (cat == 1) && c.r == (cat == 2) && c.cr == (cat == 3), "converted exactly once, in its category");
  CHECK(A.obj->has_value() && **A.obj == x + static_cast<int>(cat), "the converted value");
  vp_obs(static_cast<unsigned>(**A.obj));
  vp_cover("conversion operator");
}
VP_HARNESS(conv_op_separate) { conv_op<tiny::optional<int>>(); }
VP_HARNESS(conv_op_sentinel) { conv_op<tiny::optional<int, 123>>(); }
VP_HARNESS(conv_op_aip) { conv_op<tiny::optional_aip<long long>>(); }
VP_HARNESS(conv_op_double) { conv_op<tiny::optional<double>>(); }

// Payload with explicit and implicit constructors and assignments from the same type
struct Expl
{
  int v, how;
  double d;
  explicit Expl(int x) : v(x), how(1), d(0) {}
  Expl(short x) : v(x), how(2), d(0) {}
  explicit Expl(Arg const & a) : v(a.v), how(3), d(0) {}
  explicit Expl(Arg && a) : v(a.v), how(4), d(0) { a.v = 0; }
  Expl & operator=(Arg const & a) { return v = a.v, how = 5, *this; }
  Expl & operator=(Arg && a) { return v = a.v, a.v = 0, how = 6, *this; }
};
// the same with default construction (nothrow, or not)
template <bool NOTHROW>
struct ExplD : Expl
{
  int w;
  ExplD() noexcept(NOTHROW) : Expl(0), w(0) { how = 7; }
  explicit ExplD(int x) noexcept : Expl(x), w(1) {}
  ExplD(short x) noexcept : Expl(x), w(1) {}
  explicit ExplD(Arg const & a) : Expl(a), w(1) {}
  explicit ExplD(Arg && a) : Expl(std::move(a)), w(1) {}
  using Expl::operator=;
};
template <class O>
void expl()
{
  Arg a{vp_int("a")};
  short const s = static_cast<short>(vp_sym(16, "s"));
  int const av = a.v;
  unsigned const how = vp_choose(13, "how");
  Arena<O> A("mem");
  int v = av, k = 0;
  bool moved = false;
  switch (how) {
  case 0: A.make(av); k = 1; break;
  case 1: A.make(s); k = 2; v = s; break;
  case 2: A.make(a); k = 3; break;
  case 3: A.make(std::move(a)); k = 4; moved = true; break;
  case 4: A.make(std::in_place, std::move(a)); k = 4; moved = true; break;
  case 5: A.make().emplace(a); k = 3; break;
  case 6: A.make(s).emplace(std::move(a)); k = 4; moved = true; break;
  case 7: A.make() = a; k = 3; break;
  case 8: A.make() = std::move(a); k = 4; moved = true; break;
  case 9: A.make(s) = a; k = 5; break;
  case 10: A.make(s) = std::move(a); k = 6; moved = true; break;
  case 11: {
    O o = s; // implicit
    CHECK(o.has_value(), "engaged");
    A.make(o);
    k = 2;
    v = s;
    break;
  }
  case 12: {
    A.make(s) = std::nullopt;
    *A.obj = std::move(a);
    k = 4;
    moved = true;
    break;
  }
  default: break;
  }
  CHECK(A.obj->has_value() && (*A.obj)->v == v && (*A.obj)->how == k, "constructed or assigned directly from the argument");
  CHECK(a.v == (moved ? 0 : av), "only rvalues are moved from");
  vp_obs(static_cast<unsigned>(how));
  vp_cover("explicit");
}
VP_HARNESS(explicit_separate) { expl<tiny::optional<Expl>>(); }
VP_HARNESS(explicit_default) { expl<tiny::optional<ExplD<true>>>(); }
VP_HARNESS(explicit_default_throw) { expl<tiny::optional<ExplD<false>>>(); }
VP_HARNESS(explicit_default_member) { expl<tiny::optional<ExplD<true>, &ExplD<true>::w, -1>>(); }
VP_HARNESS(explicit_member) { expl<tiny::optional<Expl, &Expl::how, -1>>(); }
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
VP_HARNESS(explicit_member_double) { expl<tiny::optional<Expl, &Expl::d>>(); }
#endif

// --- nothing is evaluated for an argument that means empty ----------------------------------------------------------
template <class O>
void means_empty()
{
  int const x = vp_int("x");
  vp_assume(x != kReserved);
  unsigned const how = vp_choose(9, "how");
  W.clear();
  {
    Arena<O> A("mem");
    bool had = false;
    switch (how) {
    case 0: W.recording = true; A.make(); break;
    case 1: W.recording = true; A.make(std::nullopt); break;
    case 2: W.recording = true; A.obj = ::new (static_cast<void *>(A.mem)) O{}; break;
    case 3: {
      W.recording = true;
      O o = {};
      CHECK(!o.has_value(), "empty");
      A.make();
      break;
    }
    case 4: A.make(); W.recording = true; *A.obj = std::nullopt; break;
    case 5: A.make(); W.recording = true; *A.obj = {}; break;
    case 6: A.make(std::in_place, x); W.recording = true; *A.obj = std::nullopt; had = true; break;
    case 7: A.make(std::in_place, x); W.recording = true; *A.obj = {}; had = true; break;
    case 8: {
      W.recording = true;
      O o = std::nullopt;
      CHECK(!o.has_value(), "empty");
      A.make();
      break;
    }
    default: break;
    }
    W.recording = false;
    CHECK(!A.obj->has_value(), "empty");
    CHECK(W.nlog == (had ? 1 : 0), "no payload is constructed, copied or moved");
    if (had)
      CHECK(W.log[0].kind == kDtor, "only the old payload is destroyed");
    CHECK(W.nlive == 0, "no payload alive");
    A.destroy();
    vp_cover("means empty");
  }
}
VP_HARNESS(empty_separate) { means_empty<OneSep>(); }
VP_HARNESS(empty_member) { means_empty<OneMem>(); }
VP_HARNESS(empty_inplace) { means_empty<OneInp>(); }
VP_HARNESS(empty_registered) { means_empty<OneReg>(); }

// aggregates and arrays through in_place value initialisation of plain payloads
template <class O, class T>
void value_init()
{
  unsigned const how = vp_choose(4, "how");
  Any<T> first("first");
  if constexpr (std::is_floating_point_v<T>)
    vp_assume(first.v == first.v);
  vp_assume(first.v != T(1));
  Arena<O> A("mem");
  switch (how) {
  case 0: A.make(std::in_place); break;
  case 1: A.make().emplace(); break;
  case 2: A.make(first.v).emplace(); break;
  case 3: {
    A.make(first.v).reset();
    A.obj->emplace();
    break;
  }
  default: break;
  }
  CHECK(A.obj->has_value() && same_bits<T>(**A.obj, T()), "no arguments: value initialised payload");
  vp_cover("value init");
}
VP_HARNESS(valinit_int) { value_init<tiny::optional<int>, int>(); }
VP_HARNESS(valinit_sentinel) { value_init<tiny::optional<int, 1>, int>(); }
VP_HARNESS(valinit_bool) { value_init<tiny::optional<bool>, bool>(); }
VP_HARNESS(valinit_double) { value_init<tiny::optional<double>, double>(); }
VP_HARNESS(valinit_float) { value_init<tiny::optional<float>, float>(); }

// payloads are constructed with parentheses, so that an initializer_list constructor is taken only if a list was given
struct Paren
{
  int v, how;
  Paren() : v(0), how(1) {}
  Paren(int x) : v(x), how(2) {}
  Paren(int x, int y) : v(x ^ (y << 1)), how(3) {}
  Paren(std::initializer_list<int> il) : v(0), how(4)
  {
    for (int i : il)
      v = (v << 3) ^ i;
  }
};
template <class O, class S>
void paren_kind(O & o, S & s, int x, int y)
{
  unsigned const how = vp_choose(13, "how");
  switch (how) {
  case 0: o.emplace(); s.emplace(); break;
  case 1: o.emplace(x); s.emplace(x); break;
  case 2: o.emplace(x, y); s.emplace(x, y); break;
  case 3: o.emplace({x, y}); s.emplace({x, y}); break;
  case 4: o.emplace({x}); s.emplace({x}); break;
  case 5: o = x; s = x; break;
  case 6: o = O(std::in_place); s = S(std::in_place); break;
  case 7: o = O(std::in_place, x); s = S(std::in_place, x); break;
  case 8: o = O(std::in_place, x, y); s = S(std::in_place, x, y); break;
  case 9: o = O(std::in_place, {x, y}); s = S(std::in_place, {x, y}); break;
  case 10: o = O(x); s = S(x); break;
  case 11: o = O(Paren(x, y)); s = S(Paren(x, y)); break;
  case 12: {
    Paren const p(x);
    o = p;
    s = p;
    break;
  }
  default: break;
  }
}
template <class O>
void paren()
{
  int const x = vp_int("x"), y = vp_int("y");
  Arena<O> A("mem");
  std::optional<Paren> s;
  O & o = A.make();
  if (vp_bool("engaged")) {
    o.emplace();
    s.emplace();
  }
  paren_kind(o, s, x, y);
  CHECK(o.has_value() && s.has_value(), "engaged");
  CHECK(o->how == s->how && o->v == s->v, "the same constructor as for std::optional");
  Paren const d(y);
  CHECK(o.value_or(d).how == s.value_or(d).how && o.value_or(y).how == s.value_or(y).how, "value_or of engaged");
  o.reset();
  s.reset();
  CHECK(o.value_or(d).how == s.value_or(d).how && o.value_or(y).how == s.value_or(y).how, "value_or of empty");
  vp_cover("paren");
}
VP_HARNESS(paren_separate) { paren<tiny::optional<Paren>>(); }
VP_HARNESS(paren_member) { paren<tiny::optional<Paren, &Paren::how, -1>>(); }
VP_HARNESS(paren_make)
{
  int const x = vp_int("x"), y = vp_int("y");
  auto check = [](auto const & o, auto const & s) {
    CHECK(o.has_value() && o->how == s->how && o->v == s->v, "the same constructor as for std::make_optional");
    vp_cover("made");
  };
  switch (vp_choose(7, "how")) {
  case 0: check(tiny::make_optional<Paren>(), std::make_optional<Paren>()); break;
  case 1: check(tiny::make_optional<Paren>(x), std::make_optional<Paren>(x)); break;
  case 2: check(tiny::make_optional<Paren>(x, y), std::make_optional<Paren>(x, y)); break;
  case 3: check(tiny::make_optional<Paren>({x, y}), std::make_optional<Paren>({x, y})); break;
  case 4: check(tiny::make_optional<Paren, &Paren::how, -1>(x, y), std::make_optional<Paren>(x, y)); break;
  case 5: check(tiny::make_optional<Paren, &Paren::how, -1>({x, y}), std::make_optional<Paren>({x, y})); break;
  case 6: check(tiny::make_optional(Paren(x, y)), std::make_optional(Paren(x, y))); break;
  default: break;
  }
}

// braced lists initialise an aggregate payload, and emplace() of an aggregate value initialises it
struct Agg
{
  int a;
  short b;
  signed char c;
};
template <class O>
void agg()
{
  int const x = vp_int("x");
  short const y = static_cast<short>(vp_sym(16, "y"));
  signed char const z = static_cast<signed char>(vp_sym(8, "z"));
  vp_assume(y != 77);
  Arena<O> A("mem");
  bool zero = false;
  switch (vp_choose(8, "how")) {
  case 0: A.obj = ::new (static_cast<void *>(A.mem)) O({x, y, z}); break;
  case 1: A.make() = {x, y, z}; break;
  case 2: A.make(Agg{1, 2, 3}) = {x, y, z}; break;
  case 3: A.obj = ::new (static_cast<void *>(A.mem)) O{{x, y, z}}; break;
  case 4: A.make(std::in_place); zero = true; break;
  case 5: A.make().emplace(); zero = true; break;
  case 6: A.make(Agg{x, y, z}).emplace(); zero = true; break;
  case 7: A.make().emplace(Agg{x, y, z}); break;
  default: break;
  }
  O & o = *A.obj;
  CHECK(o.has_value(), "engaged");
  CHECK(o->a == (zero ? 0 : x) && o->b == (zero ? 0 : y) && o->c == (zero ? 0 : z), "aggregate initialised from the list");
  CHECK(A.guards_intact(), "neighbours");
  A.destroy();
  vp_cover("aggregate");
}
VP_HARNESS(agg_separate) { agg<tiny::optional<Agg>>(); }
VP_HARNESS(agg_member) { agg<tiny::optional<Agg, &Agg::b, 77>>(); }
} // namespace
