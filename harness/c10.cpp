// C10: monadic operations call and forward exactly as specified.
#include "life.h"

namespace
{
enum Cat : int { kL, kCL, kR, kCR };
template <class X> // X as deduced for a forwarding reference X&&
constexpr int cat_of()
{
  if constexpr (std::is_lvalue_reference_v<X>)
    return std::is_const_v<std::remove_reference_t<X>> ? kCL : kL;
  else
    return std::is_const_v<X> ? kCR : kR;
}
struct Call
{
  int n = 0, cat = -1, fq = -1, val = 0;
  void const * addr = nullptr;
};
template <class X>
int num(X const & x)
{
  if constexpr (std::is_arithmetic_v<X> || std::is_enum_v<X>)
    return static_cast<int>(static_cast<long long>(bits_of(x)));
  else
    return x.v;
}

// Callable whose own value category is observed as well.
template <class Mk>
struct Fn
{
  Call * c;
  Mk mk;
  template <class X>
  auto run(X && x, int cat, int fq) const
  {
    ++c->n;
    c->cat = cat;
    c->fq = fq;
    c->addr = std::addressof(x);
    c->val = num(x);
    return mk(c->val);
  }
  template <class X>
  auto operator()(X && x) &
  {
    return run(x, cat_of<X>(), kL);
  }
  template <class X>
  auto operator()(X && x) const &
  {
    return run(x, cat_of<X>(), kCL);
  }
  template <class X>
  auto operator()(X && x) &&
  {
    return run(x, cat_of<X>(), kR);
  }
  template <class X>
  auto operator()(X && x) const &&
  {
    return run(x, cat_of<X>(), kCR);
  }
};
template <class Mk>
struct Fn0
{
  Call * c;
  Mk mk;
  auto run(int fq) const
  {
    ++c->n;
    c->fq = fq;
    return mk();
  }
  auto operator()() & { return run(kL); }
  auto operator()() const & { return run(kCL); }
  auto operator()() && { return run(kR); }
  auto operator()() const && { return run(kCR); }
};

struct AndThen
{
  template <class O, class F>
  auto operator()(O && o, F && f) const
  {
    return std::forward<O>(o).and_then(std::forward<F>(f));
  }
};
struct Transform
{
  template <class O, class F>
  auto operator()(O && o, F && f) const
  {
    return std::forward<O>(o).transform(std::forward<F>(f));
  }
};

// Result checker: engaged result that came from 'val', or empty.
template <class R>
void check_result(R const & r, bool engaged, int val, bool from_optional)
{
  CHECK(r.has_value() == engaged, "result engaged iff the source is");
  if (engaged) {
    CHECK(num(*r) == val, "result holds what the callable returned");
  }
  if constexpr (!std::is_arithmetic_v<std::remove_cv_t<typename R::value_type>>) {
    if (engaged) {
      CHECK(W.is_live(std::addressof(*r)), "result payload alive");
      CHECK(W.nlog == 1 && W.log[0].kind == kCtorInt, "result constructed once, in place, no copies or moves");
    }
    else
      CHECK(W.nlog == 0, "no payload operation for an empty source");
  }
  else
    CHECK(W.nlog == 0, "no payload operation on the source");
  (void)from_optional;
}

// O: source flavour; V: what to store (int for tracked ones)
template <class Op, class O, class Mk>
void monadic(Mk mk)
{
  W.clear();
  int v = vp_int("v"), w = vp_int("w");
  vp_assume(v != kReserved && w != kReserved && (v ^ 1) != kReserved);
  unsigned const st = vp_choose(3, "state"), cat = vp_choose(4, "source category"), fq = vp_choose(4, "callable category");
  {
    Arena<O> A("src");
    if (st == 0)
      A.make();
    else if (st == 1) {
      A.make(std::in_place, w);
      A.obj->reset();
    }
    else
      A.make(std::in_place, v);
    O & o = *A.obj;
    O const & c = o;
    int const stored = st == 2 ? num(*c) : 0;
    void const * addr = st == 2 ? static_cast<void const *>(std::addressof(*c)) : nullptr;
    Call call;
    Fn<Mk> f{&call, mk};
    Fn<Mk> const & cf = f;
    Op op;
    W.recording = true;
    auto check = [&](auto const & r) {
      W.recording = false;
      CHECK(call.n == (st == 2 ? 1 : 0), "called exactly once iff engaged");
      if (st == 2) {
        constexpr int add = std::is_const_v<typename O::value_type> ? 1 : 0;
        CHECK(call.cat == (static_cast<int>(cat) | add), "argument in the optional's value category");
        CHECK(call.fq == static_cast<int>(fq), "callable invoked in its own value category");
        CHECK(call.addr == addr, "argument is the held payload");
        CHECK(call.val == stored, "argument has the held value");
      }
      check_result(r, st == 2, stored ^ 1, true);
      CHECK(o.has_value() == (st == 2), "source state unmodified");
      if (st == 2)
        CHECK(num(*c) == stored && std::addressof(*c) == addr, "source value unmodified");
      vp_obs(r.has_value());
      vp_obs(static_cast<unsigned>(call.cat));
    };
#define WITH_F(SRC)                                                                                                    \
  switch (fq) {                                                                                                        \
  case kL: {                                                                                                           \
    auto const r = op(SRC, f);                                                                                         \
    check(r);                                                                                                          \
    break;                                                                                                             \
  }                                                                                                                    \
  case kCL: {                                                                                                          \
    auto const r = op(SRC, cf);                                                                                        \
    check(r);                                                                                                          \
    break;                                                                                                             \
  }                                                                                                                    \
  case kR: {                                                                                                           \
    auto const r = op(SRC, std::move(f));                                                                              \
    check(r);                                                                                                          \
    break;                                                                                                             \
  }                                                                                                                    \
  default: {                                                                                                           \
    auto const r = op(SRC, std::move(cf));                                                                             \
    check(r);                                                                                                          \
    break;                                                                                                             \
  }                                                                                                                    \
  }
    switch (cat) {
    case kL: WITH_F(o) break;
    case kCL: WITH_F(c) break;
    case kR: WITH_F(std::move(o)) break;
    default: WITH_F(std::move(c)) break;
    }
    CHECK(A.guards_intact(), "neighbours untouched");
    A.destroy();
  }
  CHECK(W.nlive == 0, "nothing left alive");
  vp_cover(st == 2 ? "called" : "not called");
}

// what the callables return
struct MkInt
{
  int operator()(int v) const { return v ^ 1; }
};
struct MkTN
{
  TN operator()(int v) const { return TN(v ^ 1); }
};
struct MkMO
{
  MO operator()(int v) const { return MO(v ^ 1); }
};
struct MkPinned
{
  Pinned operator()(int v) const { return Pinned(v ^ 1); }
};
struct MkRS
{
  RS operator()(int v) const { return RS(v ^ 1); }
};
template <class R>
struct MkOpt
{
  R operator()(int v) const { return R(std::in_place, v ^ 1); }
};
} // namespace

#define SRC(name, O)                                                                                                   \
  VP_HARNESS(name##_tr_int) { monadic<Transform, O>(MkInt{}); }                                                        \
  VP_HARNESS(name##_tr_tn) { monadic<Transform, O>(MkTN{}); }                                                          \
  VP_HARNESS(name##_tr_pinned) { monadic<Transform, O>(MkPinned{}); }                                                  \
  VP_HARNESS(name##_at_opt) { monadic<AndThen, O>(MkOpt<tiny::optional<TN>>{}); }                                      \
  VP_HARNESS(name##_at_sent) { monadic<AndThen, O>(MkOpt<tiny::optional<int, kReserved>>{}); }                         \
  VP_HARNESS(name##_at_std) { monadic<AndThen, O>(MkOpt<std::optional<MO>>{}); }
SRC(sep, Sep<TN>)
SRC(pin, Sep<Pinned>)
SRC(mem, MemInt<TS>)
SRC(inp, Inpl<TT>)
SRC(reg, tiny::optional<RN>)
SRC(int, tiny::optional<int>)
SRC(sent, tiny::optional<int COMMA kReserved>)
SRC(inpint, tiny::optional_inplace<int COMMA tiny::sentinel_flag_manipulator<int COMMA kReserved>>)
SRC(cint, tiny::optional<int const>)
VP_HARNESS(sep_tr_mo) { monadic<Transform, Sep<MO>>(MkMO{}); }
VP_HARNESS(sep_tr_rs) { monadic<Transform, Sep<MO>>(MkRS{}); }
VP_HARNESS(inp_at_inp) { monadic<AndThen, Inpl<TT>>(MkOpt<Inpl<MO>>{}); }
VP_HARNESS(inp_at_pinned) { monadic<AndThen, Inpl<TT>>(MkOpt<tiny::optional<Pinned>>{}); }
VP_HARNESS(reg_at_mem) { monadic<AndThen, tiny::optional<RN>>(MkOpt<MemInt<TN>>{}); }

// transform: the full set of values of the result survives (compressed results)
template <class U, class Ok>
static void transform_value(Ok ok)
{
  Any<U> u("result");
  vp_assume(ok(u.v));
  unsigned const cat = vp_choose(4, "category");
  tiny::optional<int> o(1);
  auto const & c = o;
  int calls = 0;
  auto f = [&](int const &) -> U {
    ++calls;
    return u.v;
  };
  auto chk = [&](auto const & r) {
    static_assert(std::is_same_v<std::remove_const_t<std::remove_reference_t<decltype(r)>>, tiny::optional<U>>);
    CHECK(r.has_value(), "engaged");
    CHECK(same_bits<U>(*r, u.v), "exactly the returned value");
  };
  switch (cat) {
  case 0: chk(o.transform(f)); break;
  case 1: chk(c.transform(f)); break;
  case 2: chk(std::move(o).transform(f)); break;
  default: chk(std::move(c).transform(f)); break;
  }
  CHECK(calls == 1 && o.has_value() && *o == 1, "called once");
  vp_cover("value");
}
template <class U>
static bool any(U const &)
{
  return true;
}
VP_HARNESS(tv_bool) { transform_value<bool>(any<bool>); }
VP_HARNESS(tv_double)
{
  transform_value<double>([](double const & d) { return !kBits || bits_of(d) != 0x7ff8fedcba987654ull; });
}
VP_HARNESS(tv_long) { transform_value<long long>(any<long long>); }
VP_HARNESS(tv_char) { transform_value<unsigned char>(any<unsigned char>); }

// callables taking their argument by value: exactly one copy from lvalues, one move from rvalues
template <class O, class P>
static void by_value()
{
  W.clear();
  int v = vp_int("v");
  vp_assume(v != kReserved);
  unsigned const cat = vp_choose(4, "category"), how = vp_choose(2, "operation"), st = vp_choose(2, "engaged");
  {
    Arena<O> A("src");
    O & o = A.make();
    if (st)
      o.emplace(v);
    O const & c = o;
    int calls = 0, got = 0;
    auto t = [&](P x) {
      ++calls;
      got = x.v;
      return 7;
    };
    auto a = [&](P x) {
      ++calls;
      got = x.v;
      return tiny::optional<int>(7);
    };
    W.recording = true;
    bool e;
    switch (cat * 2 + how) {
    case 0: e = o.transform(t).has_value(); break;
    case 1: e = o.and_then(a).has_value(); break;
    case 2: e = c.transform(t).has_value(); break;
    case 3: e = c.and_then(a).has_value(); break;
    case 4: e = std::move(o).transform(t).has_value(); break;
    case 5: e = std::move(o).and_then(a).has_value(); break;
    case 6: e = std::move(c).transform(t).has_value(); break;
    default: e = std::move(c).and_then(a).has_value(); break;
    }
    W.recording = false;
    CHECK(e == (st != 0) && calls == (st ? 1 : 0), "called iff engaged");
    CHECK(o.has_value() == (st != 0), "source state");
    if (st) {
      CHECK(got == v, "argument value");
      bool const moved = cat == kR;
      CHECK(W.nlog == 2 && W.log[0].kind == (moved ? kMove : kCopy) && W.log[1].kind == kDtor, "one copy or move");
      CHECK((*c).v == (moved ? kMovedFrom : v), "source copied or moved from");
    }
    else
      CHECK(W.nlog == 0, "nothing touched");
    A.destroy();
  }
  CHECK(W.nlive == 0, "nothing left alive");
  vp_cover(st ? "called" : "not called");
}
VP_HARNESS(byval_sep) { by_value<Sep<TS>, TS>(); }
VP_HARNESS(byval_mem) { by_value<MemInt<TN>, TN>(); }
VP_HARNESS(byval_inp) { by_value<Inpl<TN>, TN>(); }

// Member pointers as callables
struct Pt
{
  int v;
  int get() const { return v ^ 1; }
  tiny::optional<int> opt() { return v > 0 ? tiny::optional<int>(v) : tiny::optional<int>(); }
};
template <class O>
static void member_ptrs()
{
  int v = vp_int("v");
  vp_assume(v != kReserved);
  unsigned const st = vp_choose(2, "engaged"), how = vp_choose(5, "how");
  O o;
  if (st)
    o.emplace(Pt{v});
  O const & c = o;
  tiny::optional<int> r;
  switch (how) {
  case 0: r = o.transform(&Pt::get); break;
  case 1: r = c.transform(&Pt::get); break;
  case 2: r = std::move(o).transform(&Pt::get); break;
  case 3: r = o.and_then(&Pt::opt); break;
  default: r = std::move(o).and_then(&Pt::opt); break;
  }
  bool const e = st && (how < 3 || v > 0);
  CHECK(r.has_value() == e, "engaged iff");
  if (e)
    CHECK(*r == (how >= 3 ? v : (v ^ 1)), "value");
  CHECK(o.has_value() == (st != 0), "source");
  vp_cover("member pointer");
}
VP_HARNESS(mp_sep) { member_ptrs<tiny::optional<Pt>>(); }
VP_HARNESS(mp_mem) { member_ptrs<tiny::optional<Pt, &Pt::v, kReserved>>(); }

// and_then whose callable returns a reference: the result is a copy, the referenced optional stays as it is
template <class O, class R>
static void by_ref()
{
  int v = vp_int("v"), w = vp_int("w");
  vp_assume(v != kReserved && w != kReserved);
  unsigned const st = vp_choose(2, "engaged"), rs = vp_choose(2, "result engaged");
  O o;
  if (st)
    o = v;
  R ext;
  if (rs)
    ext = w;
  auto r = o.and_then([&](int const &) -> R & { return ext; });
  auto r2 = std::move(o).and_then([&](int const &) -> R const & { return ext; });
  static_assert(std::is_same_v<decltype(r), R> && std::is_same_v<decltype(r2), R>);
  CHECK(r.has_value() == (st && rs) && r2.has_value() == (st && rs), "engaged");
  if (st && rs)
    CHECK(*r == w && *r2 == w, "value");
  CHECK(ext.has_value() == (rs != 0), "referenced optional unchanged");
  if (rs)
    CHECK(*ext == w, "referenced value unchanged");
  vp_cover("by reference");
}
VP_HARNESS(ref_int) { by_ref<tiny::optional<int>, tiny::optional<int, kReserved>>(); }
VP_HARNESS(ref_std) { by_ref<tiny::optional<int, kReserved>, std::optional<int>>(); }

#ifdef VP_CXX20
// or_else. OUT: the optional type the callable returns.
template <class O>
static void or_else()
{
  W.clear();
  int v = vp_int("v"), w = vp_int("w");
  vp_assume(v != kReserved && w != kReserved);
  unsigned const st = vp_choose(3, "state"), cat = vp_choose(4, "category"), fq = vp_choose(4, "callable category");
  unsigned const rs = vp_choose(2, "callable's result engaged");
  constexpr bool copyable = std::is_copy_constructible_v<typename O::value_type>;
  vp_assume(copyable || cat == kR);
  {
    Arena<O> A("src");
    if (st == 0)
      A.make();
    else if (st == 1) {
      A.make(std::in_place, w);
      A.obj->reset();
    }
    else
      A.make(std::in_place, v);
    O & o = *A.obj;
    O const & c = o;
    (void)c;
    Call call;
    auto mk = [rs, w] { return rs ? O(std::in_place, w) : O(); };
    Fn0<decltype(mk)> f{&call, mk};
    Fn0<decltype(mk)> const & cf = f;
    W.recording = true;
    auto chk = [&](O const & r) {
      W.recording = false;
      CHECK(call.n == (st == 2 ? 0 : 1), "called once iff empty");
      if (st != 2)
        CHECK(call.fq == static_cast<int>(fq), "callable invoked in its own value category");
      CHECK(r.has_value() == (st == 2 || rs != 0), "result engaged");
      bool const moved = st == 2 && cat == kR;
      if (r.has_value())
        CHECK(num(*r) == (st == 2 ? v : w), "result value");
      CHECK(o.has_value() == (st == 2), "source state");
      if constexpr (!std::is_arithmetic_v<typename O::value_type>) {
        if (st == 2) {
          CHECK((*o).v == (moved ? kMovedFrom : v), "source value");
          CHECK(W.nlog == 1 && W.log[0].kind == (moved ? kMove : kCopy), "one copy or move");
        }
        else
          CHECK(W.nlog == (rs ? 1 : 0), "the callable's result is not copied or moved");
      }
      else if (st == 2)
        CHECK(*o == v, "source value");
      vp_obs(r.has_value());
    };
  #define WITH_G(S)                                                                                                    \
    switch (fq) {                                                                                                      \
    case kL: chk(S.or_else(f)); break;                                                                                 \
    case kCL: chk(S.or_else(cf)); break;                                                                               \
    case kR: chk(S.or_else(std::move(f))); break;                                                                      \
    default: chk(S.or_else(std::move(cf))); break;                                                                     \
    }
    if constexpr (copyable) {
      switch (cat) {
      case kL: WITH_G(o) break;
      case kCL: WITH_G(c) break;
      case kCR: WITH_G(std::move(c)) break;
      default: break;
      }
    }
    if (cat == kR)
      WITH_G(std::move(o))
    CHECK(A.guards_intact(), "neighbours");
    A.destroy();
  }
  CHECK(W.nlive == 0, "nothing left alive");
  vp_cover(st == 2 ? "held" : "called");
}
VP_HARNESS(oe_sep) { or_else<Sep<TS>>(); }
VP_HARNESS(oe_mo) { or_else<Sep<MO>>(); }
VP_HARNESS(oe_mem) { or_else<MemInt<TN>>(); }
VP_HARNESS(oe_inp) { or_else<Inpl<TT>>(); }
VP_HARNESS(oe_inpmo) { or_else<Inpl<MO>>(); }
VP_HARNESS(oe_reg) { or_else<tiny::optional<RS>>(); }
VP_HARNESS(oe_int) { or_else<tiny::optional<int>>(); }
VP_HARNESS(oe_sent) { or_else<tiny::optional<int, kReserved>>(); }
VP_HARNESS(oe_inpint) { or_else<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, kReserved>>>(); }
#endif
