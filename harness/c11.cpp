// C11: accessors return the held payload, value() throws iff empty.
#include "life.h"

namespace
{
enum Cat : int { kL, kCL, kR, kCR };
template <class X>
constexpr int cat_of()
{
  if constexpr (std::is_lvalue_reference_v<X>)
    return std::is_const_v<std::remove_reference_t<X>> ? kCL : kL;
  else
    return std::is_const_v<X> ? kCR : kR;
}
template <class T>
auto plain_addr(T & x)
{
  return const_cast<std::remove_cv_t<T> *>(std::addressof(x));
}
struct Seen
{
  void const * addr = nullptr;
  int cat = -1;
};
template <class X>
void see(Seen & s, X && x) // x must be an expression, not a value: prvalues would have another address
{
  s.addr = plain_addr(x);
  s.cat = cat_of<X>();
}
template <class P>
void see_ptr(Seen & s, P * p)
{
  s.addr = const_cast<std::remove_cv_t<P> *>(p);
  s.cat = std::is_const_v<P> ? kCL : kL;
}

enum : unsigned { acDeref, acValue, acArrow, acEnd };
inline constexpr unsigned kAccessors = 10;

// One accessor in one value category.
template <class O>
void access(O & o, unsigned which, Seen & s, bool & threw)
{
  O const & c = o;
  threw = false;
  try {
    switch (which) {
    case 0: see(s, *o); break;
    case 1: see(s, *c); break;
    case 2: see(s, *std::move(o)); break;
    case 3: see(s, *std::move(c)); break;
    case 4: see(s, o.value()); break;
    case 5: see(s, c.value()); break;
    case 6: see(s, std::move(o).value()); break;
    case 7: see(s, std::move(c).value()); break;
    case 8: see_ptr(s, o.operator->()); break;
    case 9: see_ptr(s, c.operator->()); break;
    default: break;
    }
  }
  catch (std::bad_optional_access const &) {
    threw = true;
  }
}

// V: the value type; eng: number of ways to become engaged
template <class O, class V, class Ok>
void accessors(Ok ok)
{
  using P = typename O::value_type;
  Any<V> v("v"), w("w");
  vp_assume(ok(v.v) && ok(w.v));
  unsigned const st = vp_choose(3, "state"), which = vp_choose(kAccessors, "accessor");
  bool const engaged = st == 2;
  vp_assume(engaged || (which >= 4 && which <= 7)); // the others require an engaged optional
  Arena<O> A("mem");
  if (st == 0)
    A.make();
  else if (st == 1) {
    A.make(std::in_place, w.v);
    A.obj->reset();
  }
  else
    A.make(std::in_place, v.v);
  O & o = *A.obj;
  unsigned char before[sizeof(O)];
  std::memcpy(before, static_cast<void const *>(&o), sizeof(O));
  Seen s;
  bool threw;
  access(o, which, s, threw);
  CHECK(threw == !engaged, "bad_optional_access iff empty");
  CHECK(o.has_value() == engaged, "state unchanged by access");
  CHECK(std::memcmp(before, static_cast<void const *>(&o), sizeof(O)) == 0, "object unchanged by access");
  if (engaged) {
    static constexpr int cats[kAccessors] = {kL, kCL, kR, kCR, kL, kCL, kR, kCR, kL, kCL};
    CHECK(s.cat == (cats[which] | (std::is_const_v<P> ? 1 : 0)), "const and value category of the optional expression");
    auto * a = static_cast<unsigned char const *>(s.addr);
    CHECK(a >= A.mem && a + sizeof(P) <= A.mem + sizeof(O), "the payload lies within the optional");
    CHECK((a - A.mem) % alignof(P) == 0, "the payload is aligned");
    CHECK(s.addr == plain_addr(*o), "one payload");
    CHECK(same_bits<V>(*static_cast<V const *>(s.addr), v.v), "it has the stored value");
    // writes through the reference are seen by every later read
    if constexpr (!std::is_const_v<P> && std::is_assignable_v<P &, V const &>) {
      Seen t;
      unsigned const wr = vp_choose(6, "written through");
      switch (wr) {
      case 0: *o = w.v; break;
      case 1: o.value() = w.v; break;
      case 2: *(o.operator->()) = w.v; break;
      case 3: {
        P && r = *std::move(o);
        r = w.v;
        break;
      }
      case 4: {
        P && r = std::move(o).value();
        r = w.v;
        break;
      }
      default: {
        P & r = o.emplace(v.v);
        r = w.v;
        break;
      }
      }
      CHECK(o.has_value(), "still engaged after the write");
      access(o, which, t, threw);
      CHECK(!threw && t.addr == s.addr, "same payload after the write");
      CHECK(same_bits<V>(*static_cast<V const *>(t.addr), w.v), "the write is seen");
      vp_obs(wr);
    }
  }
  CHECK(A.guards_intact(), "neighbours");
  vp_obs(which);
  vp_cover(engaged ? "read" : "threw");
  A.destroy();
}
template <class V>
bool any(V const &)
{
  return true;
}
bool dbl(double const & d)
{
  return !kBits || bits_of(d) != 0x7ff8fedcba987654ull;
}
struct Agg
{
  short a;
  int v;
  unsigned char c[3];
  void vp_fill(char const * n)
  {
    vp_sym_bytes(&a, sizeof a, n);
    vp_sym_bytes(&v, sizeof v, n);
    vp_sym_bytes(c, sizeof c, n);
  }
  bool vp_same(Agg const & o) const
  {
    return a == o.a && v == o.v && std::memcmp(c, o.c, 3) == 0;
  }
};
bool agg(Agg const & x)
{
  return x.v != kReserved;
}
bool res(int const & x)
{
  return x != kReserved;
}
} // namespace

VP_HARNESS(acc_int) { accessors<tiny::optional<int>, int>(any<int>); }
VP_HARNESS(acc_sent) { accessors<tiny::optional<int, kReserved>, int>(res); }
VP_HARNESS(acc_cint) { accessors<tiny::optional<int const>, int>(any<int>); }
VP_HARNESS(acc_csent) { accessors<tiny::optional<int const, kReserved>, int>(res); }
VP_HARNESS(acc_dbl) { accessors<tiny::optional<double>, double>(dbl); }
VP_HARNESS(acc_cdbl) { accessors<tiny::optional<double const>, double>(dbl); }
VP_HARNESS(acc_bool) { accessors<tiny::optional<bool>, bool>(any<bool>); }
VP_HARNESS(acc_char) { accessors<tiny::optional<unsigned char>, unsigned char>(any<unsigned char>); }
VP_HARNESS(acc_agg) { accessors<tiny::optional<Agg>, Agg>(any<Agg>); }
VP_HARNESS(acc_aggmem) { accessors<tiny::optional<Agg, &Agg::v, kReserved>, Agg>(agg); }
VP_HARNESS(acc_inp)
{
  accessors<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, kReserved>>, int>(res);
}
VP_HARNESS(acc_aip)
{
  accessors<tiny::optional_aip<unsigned>, unsigned>([](unsigned const & x) { return x != UINT_MAX; });
}

// -> reaches members, also const
template <class O>
static void arrow()
{
  Any<Agg> v("v"), w("w");
  vp_assume(agg(v.v) && agg(w.v));
  Arena<O> A("mem");
  O & o = A.make(v.v);
  O const & c = o;
  CHECK(o->v == v.v.v && c->v == v.v.v && o->a == v.v.a, "-> reads members");
  o->a = w.v.a;
  o->v = w.v.v;
  o->c[2] = w.v.c[2];
  CHECK(o.has_value(), "engaged");
  CHECK((*c).a == w.v.a && c.value().v == w.v.v && c->c[2] == w.v.c[2] && c->c[0] == v.v.c[0], "-> writes members");
  CHECK(A.guards_intact(), "neighbours");
  vp_cover("arrow");
  A.destroy();
}
VP_HARNESS(arrow_sep) { arrow<tiny::optional<Agg>>(); }
VP_HARNESS(arrow_mem) { arrow<tiny::optional<Agg, &Agg::v, kReserved>>(); }

// Types that overload operator&
struct Amp
{
  int v;
  int * operator&() const { return nullptr; }
};
VP_HARNESS(addressof)
{
  int v = vp_int("v");
  tiny::optional<Amp> o(Amp{v});
  auto const & c = o;
  CHECK(o->v == v && c->v == v && (*o).v == v && o.value().v == v, "payload with overloaded operator&");
  o.reset();
  CHECK(!o.has_value(), "empty");
  o.emplace(Amp{v});
  CHECK(c->v == v, "again");
  vp_cover("addressof");
}

// value_or with tracked payloads: which operations, on whom
template <class O, class P>
static void value_or_events()
{
  W.clear();
  int v = vp_int("v"), y = vp_int("y");
  vp_assume(v != kReserved && y != kReserved);
  unsigned const st = vp_choose(3, "state"), cat = vp_choose(4, "category"), arg = vp_choose(4, "argument");
  constexpr bool copyable = std::is_copy_constructible_v<P>;
  vp_assume(copyable || (cat == kR && (arg == 1 || arg == 3)));
  {
    Arena<O> A("mem");
    make_state(A, st, v, y);
    O & o = *A.obj;
    O const & c = o;
    (void)c;
    P x(y);
    P const & cx = x;
    (void)cx;
    W.range(1, A.mem, sizeof(O));
    W.range(3, &x, sizeof x);
    W.recording = true;
    auto chk = [&](P const & r) {
      W.recording = false;
      bool const eng = st == 2;
      CHECK(r.v == (eng ? v : y), "value_or value");
      CHECK(W.is_live(&r) && W.nlive == 2 + (eng ? 1 : 0), "result is a payload of its own");
      CHECK(W.nlog == 1 && W.log[0].role == 0, "exactly one payload operation");
      int want;
      if (eng)
        want = cat == kR ? kMove : kCopy;
      else
        want = arg == 0 || arg == 2 ? kCopy : arg == 1 ? kMove : kCtorInt;
      CHECK(W.log[0].kind == want, "copies from lvalues, moves only from rvalues, converts the argument");
      CHECK(x.v == (!eng && arg == 1 ? kMovedFrom : y), "the argument is moved from only if used");
      CHECK(o.has_value() == eng, "state unchanged");
      if (eng)
        CHECK((*o).v == (cat == kR ? kMovedFrom : v), "the payload is moved from only for rvalues");
      vp_obs(static_cast<unsigned>(W.log[0].kind));
    };
    if constexpr (copyable) {
      switch (cat * 4 + arg) {
      case 0: chk(o.value_or(x)); break;
      case 1: chk(o.value_or(std::move(x))); break;
      case 2: chk(o.value_or(cx)); break;
      case 3: chk(o.value_or(y)); break;
      case 4: chk(c.value_or(x)); break;
      case 5: chk(c.value_or(std::move(x))); break;
      case 6: chk(c.value_or(cx)); break;
      case 7: chk(c.value_or(y)); break;
      case 8: chk(std::move(o).value_or(x)); break;
      case 9: chk(std::move(o).value_or(std::move(x))); break;
      case 10: chk(std::move(o).value_or(cx)); break;
      case 11: chk(std::move(o).value_or(y)); break;
      case 12: chk(std::move(c).value_or(x)); break;
      case 13: chk(std::move(c).value_or(std::move(x))); break;
      case 14: chk(std::move(c).value_or(cx)); break;
      default: chk(std::move(c).value_or(y)); break;
      }
    }
    else {
      if (arg == 1)
        chk(std::move(o).value_or(std::move(x)));
      else
        chk(std::move(o).value_or(y));
    }
    CHECK(A.guards_intact(), "neighbours");
    A.destroy();
  }
  CHECK(W.nlive == 0, "nothing left alive");
  vp_cover(st == 2 ? "held" : "default");
}
VP_HARNESS(vor_sep) { value_or_events<Sep<TS>, TS>(); }
VP_HARNESS(vor_sepn) { value_or_events<Sep<TN>, TN>(); }
VP_HARNESS(vor_mo) { value_or_events<Sep<MO>, MO>(); }
VP_HARNESS(vor_mem) { value_or_events<MemInt<TN>, TN>(); }
VP_HARNESS(vor_inp) { value_or_events<Inpl<TS>, TS>(); }
VP_HARNESS(vor_inpmo) { value_or_events<Inpl<MO>, MO>(); }
VP_HARNESS(vor_reg) { value_or_events<tiny::optional<RS>, RS>(); }

// value_or with converting arguments: as static_cast, for all values
template <class O, class S, class V, class U, class Ok>
static void value_or_conv(Ok ok)
{
  Any<V> v("v");
  Any<U> u("u");
  vp_assume(ok(v.v));
  unsigned const st = vp_choose(2, "engaged"), how = vp_choose(4, "how");
  O o;
  S s;
  if (st) {
    o.emplace(v.v);
    s.emplace(v.v);
  }
  O const & co = o;
  U u2 = u.v;
  V r, q;
  switch (how) {
  case 0:
    r = o.value_or(u.v);
    q = s.value_or(u.v);
    break;
  case 1:
    r = co.value_or(std::move(u2));
    q = s.value_or(u.v);
    break;
  case 2:
    r = std::move(o).value_or(u.v);
    q = std::move(s).value_or(u.v);
    break;
  default:
    r = std::move(co).value_or(std::move(u2));
    q = s.value_or(u.v);
    break;
  }
  CHECK(same_bits<V>(r, q), "value_or converts as std::optional");
  CHECK(same_bits<U>(u.v, u2) && o.has_value() == (st != 0), "argument unchanged");
  vp_obs(bits_of(r));
  vp_cover("converted");
}
#define VOC(name, O, V, U, ok)                                                                                         \
  VP_HARNESS(name) { value_or_conv<O, std::optional<V>, V, U>(ok); }
VOC(voc_int_long, tiny::optional<int>, int, long long, any<int>)
VOC(voc_long_int, tiny::optional<long long>, long long, int, any<long long>)
VOC(voc_long_uint, tiny::optional<long long>, long long, unsigned, any<long long>)
VOC(voc_sent_char, tiny::optional<int COMMA kReserved>, int, signed char, res)
VOC(voc_short_int, tiny::optional<short>, short, int, any<short>)
VOC(voc_dbl_int, tiny::optional<double>, double, int, dbl)
VOC(voc_dbl_flt, tiny::optional<double>, double, float, dbl)
VOC(voc_bool_int, tiny::optional<bool>, bool, int, any<bool>)
VOC(voc_bool_ptr, tiny::optional<unsigned char>, unsigned char, bool, any<unsigned char>)
VOC(voc_cint, tiny::optional<int const>, int, short, any<int>)
