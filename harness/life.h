// Tracked payloads, tracked flags, scheduled exceptions; differential scenarios against std::optional.
#pragma once
#include "vp.h"

enum Ev : int {
  kCtorInt = 1,
  kCtorIl,
  kCtorTwo,
  kCtorNone,
  kCopy,
  kMove,
  kCopyAsg,
  kMoveAsg,
  kIntAsg,
  kDtor,
  kSwap,
  kThrow,
  kCall
};
inline constexpr int kMovedFrom = -777; // value of a moved-from payload
inline constexpr int kReserved = -5; // the value the sentinel flavours reserve

struct Boom
{
  int code;
};

struct Event
{
  int kind, role, val;
};

struct World
{
  void const * live[16];
  int nlive;
  void const * flags[16];
  int nflags;
  void const * mlive[16]; // live flag members of payloads
  int nmlive;
  int throw_in; // 0: never
  bool recording;
  Event log[48];
  int nlog;
  // address ranges of the participants
  unsigned char const *lo[4], *hi[4];

  void clear()
  {
    nlive = nflags = nmlive = nlog = throw_in = 0;
    recording = false;
    for (int i = 0; i < 4; ++i)
      lo[i] = hi[i] = nullptr;
  }
  int find(void const * const * t, int n, void const * p) const
  {
    for (int i = 0; i < n; ++i)
      if (t[i] == p)
        return i;
    return -1;
  }
  bool is_live(void const * p) const { return find(live, nlive, p) >= 0; }
  bool is_flag(void const * p) const { return find(flags, nflags, p) >= 0; }
  int role(void const * p) const
  {
    auto * c = static_cast<unsigned char const *>(p);
    for (int i = 1; i < 4; ++i)
      if (c >= lo[i] && c < hi[i])
        return i;
    return 0;
  }
  void range(int i, void const * p, unsigned long n)
  {
    lo[i] = static_cast<unsigned char const *>(p);
    hi[i] = lo[i] + n;
  }
  void event(int kind, void const * p, int val)
  {
    if (recording && nlog < 48) {
      log[nlog].kind = kind;
      log[nlog].role = role(p);
      log[nlog].val = val;
      ++nlog;
    }
  }
  void born(void const * p)
  {
    CHECK(!is_live(p), "payload constructed over a live payload");
    CHECK(!is_flag(p), "payload constructed over a live flag object");
    if (nlive < 16)
      live[nlive++] = p;
  }
  void died(void const * p)
  {
    int i = find(live, nlive, p);
    CHECK(i >= 0, "payload destroyed that is not alive");
    if (i >= 0)
      live[i] = live[--nlive];
  }
  void used(void const * p) { CHECK(is_live(p), "payload used that is not alive"); }
  void flag_born(void const * p)
  {
    CHECK(!is_flag(p), "init_empty_flag() on an already initialised flag");
    CHECK(!is_live(p), "init_empty_flag() over a live payload");
    if (nflags < 16)
      flags[nflags++] = p;
  }
  void flag_died(void const * p)
  {
    int i = find(flags, nflags, p);
    CHECK(i >= 0, "invalidate_empty_flag() without an initialised flag");
    if (i >= 0)
      flags[i] = flags[--nflags];
  }
  // A point where the schedule may throw.
  void point(void const * p)
  {
    if (throw_in > 0 && recording) {
      if (--throw_in == 0) {
        event(kThrow, p, 0);
        throw Boom{4711};
      }
    }
  }
};
inline World W;

inline int vp_int(char const * n)
{
  return static_cast<int>(vp_sym(32, n));
}

// What a payload leaves in its memory when it dies or its construction fails: anything.
#define GARBAGE (static_cast<int>(vp_sym(32, "garbage")))

// NE: noexcept moves; SW: has its own swap.
template <bool NE, bool SW, bool COPY = true>
struct Tracked
{
  double d; // possible flag member
  int v; // possible flag member
  bool b; // possible flag member

  void fail_point() noexcept(false)
  {
    if (W.throw_in > 0 && W.recording) {
      v = GARBAGE;
      W.point(this);
    }
  }
  void made(int value)
  {
    v = value;
    b = true;
    d = 1.0;
    W.born(this);
  }
  Tracked(int x) noexcept(false)
  {
    fail_point();
    W.event(kCtorInt, this, x);
    made(x);
  }
  Tracked(int x, int y) noexcept(false)
  {
    fail_point();
    W.event(kCtorTwo, this, x);
    made(x ^ y);
  }
  Tracked(std::initializer_list<int> il, int y)
  {
    fail_point();
    W.event(kCtorIl, this, static_cast<int>(il.size()));
    made(*il.begin() ^ y);
  }
  template <bool C = COPY, std::enable_if_t<C, int> = 0>
  static void need_copy()
  {
  }
  Tracked(Tracked const & o)
  {
    W.used(&o);
    fail_point();
    W.event(kCopy, this, o.v);
    made(o.v);
  }
  Tracked(Tracked && o) noexcept(NE)
  {
    W.used(&o);
    if constexpr (!NE)
      fail_point();
    W.event(kMove, this, o.v);
    made(o.v);
    o.v = kMovedFrom;
  }
  Tracked & operator=(Tracked const & o)
  {
    W.used(this);
    W.used(&o);
    if (W.throw_in == 1 && W.recording)
      v = o.v ^ 0x40000000; // a partial effect
    W.point(this);
    W.event(kCopyAsg, this, o.v);
    v = o.v;
    return *this;
  }
  Tracked & operator=(Tracked && o) noexcept(NE)
  {
    W.used(this);
    W.used(&o);
    if constexpr (!NE)
      W.point(this);
    W.event(kMoveAsg, this, o.v);
    int t = o.v;
    o.v = kMovedFrom;
    v = t;
    return *this;
  }
  Tracked & operator=(int x)
  {
    W.used(this);
    W.point(this);
    W.event(kIntAsg, this, x);
    v = x;
    return *this;
  }
  ~Tracked()
  {
    W.event(kDtor, this, 0);
    W.died(this);
    // leave rubbish, possibly the very pattern that means engaged or empty
    int g = GARBAGE;
    std::memcpy(static_cast<void *>(const_cast<int *>(&v)), &g, sizeof g);
    unsigned char gb = static_cast<unsigned char>(g);
    std::memcpy(static_cast<void *>(&b), &gb, 1);
    long long gd = g;
    std::memcpy(static_cast<void *>(&d), &gd, 8);
  }
};
template <bool NE, bool COPY>
void swap(Tracked<NE, true, COPY> & x, Tracked<NE, true, COPY> & y) noexcept(NE)
{
  W.used(&x);
  W.used(&y);
  if constexpr (!NE)
    W.point(&x);
  W.event(kSwap, &x, y.v);
  int t = x.v;
  x.v = y.v;
  y.v = t;
}

// Move-only variant
template <bool NE>
struct MoveOnly : Tracked<NE, false>
{
  using Tracked<NE, false>::Tracked;
  using Tracked<NE, false>::operator=;
  MoveOnly(MoveOnly const &) = delete;
  MoveOnly(MoveOnly && o) noexcept(NE) : Tracked<NE, false>(static_cast<Tracked<NE, false> &&>(o)) {}
  MoveOnly & operator=(MoveOnly const &) = delete;
  MoveOnly & operator=(MoveOnly && o) noexcept(NE)
  {
    Tracked<NE, false>::operator=(static_cast<Tracked<NE, false> &&>(o));
    return *this;
  }
};

// Neither copyable nor movable
struct Pinned : Tracked<true, false>
{
  using Tracked<true, false>::Tracked;
  int own = 0; // possible flag member
  Pinned(Pinned const &) = delete;
  Pinned & operator=(Pinned const &) = delete;
};

// --- flag manipulators that track their flag objects -------------------------------------------------------------
// The whole payload memory is the flag. The flag object is an int marker in v's place.
template <class P>
struct TrackFM
{
  static int & slot(P & p) { return const_cast<int &>(p.v); }
  static bool is_empty(P const & p) noexcept
  {
    bool const f = W.is_flag(std::addressof(p)), l = std::is_trivially_destructible_v<P> ? !f : W.is_live(std::addressof(p));
    CHECK(f || l, "is_empty() without initialised flag or live payload");
    CHECK(!(f && l), "flag and payload at once");
    int m;
    std::memcpy(&m, &p.v, sizeof m);
    CHECK((m == kReserved) == f, "is_empty() reads the flag state");
    return m == kReserved;
  }
  static void init_empty_flag(P & p) noexcept
  {
    W.flag_born(std::addressof(p));
    int m = kReserved;
    std::memcpy(static_cast<void *>(&p.v), &m, sizeof m);
  }
  static void invalidate_empty_flag(P & p) noexcept
  {
    CHECK(W.is_flag(std::addressof(p)), "invalidate_empty_flag() on a flag that is not initialised");
    int m;
    std::memcpy(&m, &p.v, sizeof m);
    CHECK(m == kReserved, "invalidate_empty_flag() receives the empty flag intact");
    W.flag_died(std::addressof(p));
    m = GARBAGE;
    std::memcpy(static_cast<void *>(&p.v), &m, sizeof m);
  }
};

// A payload type with a registered manipulator.
template <bool NE, bool SW>
struct Registered : Tracked<NE, SW>
{
  using Tracked<NE, SW>::Tracked;
  using Tracked<NE, SW>::operator=;
  Registered(Registered const &) = default;
  Registered(Registered &&) = default;
  Registered & operator=(Registered const &) = default;
  Registered & operator=(Registered &&) = default;
};
template <bool NE, bool SW>
struct tiny::optional_flag_manipulator<Registered<NE, SW>> : TrackFM<Registered<NE, SW>>
{
};

// A member with its own tracked flag object: the manipulator only ever sees the member.
struct FlagMember
{
  int tag;
  void born()
  {
    CHECK(!W.is_flag(this), "member constructed over a live flag object");
    CHECK(W.find(W.mlive, W.nmlive, this) < 0, "member constructed twice");
    if (W.nmlive < 16)
      W.mlive[W.nmlive++] = this;
  }
  FlagMember() : tag(1) { born(); }
  FlagMember(FlagMember const & o) : tag(o.tag) { born(); }
  FlagMember & operator=(FlagMember const & o)
  {
    CHECK(W.find(W.mlive, W.nmlive, this) >= 0, "member assigned that is not alive");
    tag = o.tag;
    return *this;
  }
  ~FlagMember()
  {
    int i = W.find(W.mlive, W.nmlive, this);
    CHECK(i >= 0, "member destroyed that is not alive");
    if (i >= 0)
      W.mlive[i] = W.mlive[--W.nmlive];
    int g = GARBAGE;
    std::memcpy(static_cast<void *>(&tag), &g, sizeof g);
  }
};
template <>
struct tiny::optional_flag_manipulator<FlagMember>
{
  static bool is_empty(FlagMember const & p) noexcept
  {
    bool const f = W.is_flag(std::addressof(p)), l = W.find(W.mlive, W.nmlive, &p) >= 0;
    CHECK(f || l, "is_empty() without initialised flag or live payload");
    CHECK(!(f && l), "flag and payload at once");
    int m;
    std::memcpy(&m, &p, sizeof m);
    CHECK((m == kReserved) == f, "is_empty() reads the flag state");
    return m == kReserved;
  }
  static void init_empty_flag(FlagMember & p) noexcept
  {
    CHECK(W.find(W.mlive, W.nmlive, &p) < 0, "init_empty_flag() over a live member");
    W.flag_born(std::addressof(p));
    int m = kReserved;
    std::memcpy(static_cast<void *>(&p), &m, sizeof m);
  }
  static void invalidate_empty_flag(FlagMember & p) noexcept
  {
    int m;
    std::memcpy(&m, &p, sizeof m);
    CHECK(m == kReserved, "invalidate_empty_flag() receives the empty flag intact");
    W.flag_died(std::addressof(p));
    m = GARBAGE;
    std::memcpy(static_cast<void *>(&p), &m, sizeof m);
  }
};
template <bool NE, bool SW>
struct WithMember : Tracked<NE, SW>
{
  short pad;
  FlagMember f;
  using Tracked<NE, SW>::Tracked;
  using Tracked<NE, SW>::operator=;
};

// --- scenarios ----------------------------------------------------------------------------------------------------
template <class O>
struct Traits;

struct Outcome
{
  bool threw, ah, bh;
  int av, bv, xv, r;
  Event log[48];
  int nlog;
};

template <class O>
struct MakeOpt
{
  template <class... A>
  static O make(A &&... a)
  {
    return O(std::in_place, std::forward<A>(a)...);
  }
};

enum : unsigned {
  opCopyAsg,
  opMoveAsg,
  opSelfCopy,
  opSelfMove,
  opCopyCtor,
  opMoveCtor,
  opSwap,
  opFreeSwap,
  opSelfSwap,
  opValAsgL,
  opValAsgR,
  opIntAsg,
  opEmplaceInt,
  opEmplaceL,
  opEmplaceR,
  opEmplaceTwo,
  opEmplaceIl,
  opReset,
  opNullopt,
  opBraces,
  opCtorL,
  opCtorR,
  opCtorInt,
  opCtorInPlace,
  opCtorIl,
  opValueOrL,
  opValueOrR,
  opDerefAsg,
  opValueMove,
  opDestroy,
  opAliasL, // the argument is the held payload itself or a part of it
  opAliasR,
  opAliasPart,
  opAliasOr,
  opEnd
};

inline bool op_uses_b(unsigned op)
{
  return op == opCopyAsg || op == opMoveAsg || op == opSwap || op == opFreeSwap;
}

inline constexpr int kNone = 0x0badf00d;
template <class O>
int val_of(O const & o)
{
  return o.has_value() ? (*o).v : kNone;
}

// state: 0 fresh empty, 1 emptied, 2 engaged
template <class O>
void make_state(Arena<O> & A, unsigned st, int v, int w)
{
  if (st == 0)
    A.make();
  else if (st == 1) {
    A.make(std::in_place, w);
    A.obj->reset();
  }
  else
    A.make(std::in_place, v);
}

// One operation on a (and b, x); exceptions escape.
template <class O, class P>
void do_op(unsigned op, Arena<O> & A, Arena<O> & B, P & x, int vy, Outcome & out)
{
  O &a = *A.obj, &b = *B.obj;
  (void)b;
  switch (op) {
  case opMoveAsg: a = std::move(b); break;
  case opSelfMove: {
    O & alias = a;
    a = std::move(alias);
    break;
  }
  case opMoveCtor: {
    O c(std::move(a));
    out.r = val_of(c);
    break;
  }
  case opSwap: a.swap(b); break;
  case opFreeSwap: {
    using std::swap;
    swap(a, b);
    break;
  }
  case opSelfSwap: a.swap(a); break;
  case opValAsgR: a = std::move(x); break;
  case opIntAsg: a = vy; break;
  case opEmplaceInt: {
    auto & ref = a.emplace(vy);
    out.r = ref.v;
    CHECK(std::addressof(ref) == std::addressof(*a), "emplace returns the payload");
    break;
  }
  case opEmplaceR: a.emplace(std::move(x)); break;
  case opEmplaceTwo: a.emplace(vy, 1); break;
  case opEmplaceIl: a.emplace({vy, 1, 2}, 1); break;
  case opReset: a.reset(); break;
  case opNullopt: a = std::nullopt; break;
  case opBraces: a = {}; break;
  case opCtorR: {
    O c(std::move(x));
    out.r = val_of(c);
    break;
  }
  case opCtorInt: {
    O c(vy);
    out.r = val_of(c);
    break;
  }
  case opCtorInPlace: {
    O c(std::in_place, vy, 1);
    out.r = val_of(c);
    break;
  }
  case opCtorIl: {
    O c(std::in_place, {vy, 1, 2}, 1);
    out.r = val_of(c);
    break;
  }
  case opValueOrR: {
    P r = std::move(a).value_or(std::move(x));
    out.r = r.v;
    break;
  }
  case opValueMove:
    if (a.has_value()) {
      P r(std::move(a).value());
      out.r = r.v;
    }
    else {
      bool threw = false;
      try {
        P r(std::move(a).value());
      }
      catch (std::bad_optional_access const &) {
        threw = true;
      }
      CHECK(threw, "value() of empty throws");
    }
    break;
  case opAliasR:
    if (a.has_value())
      a = std::move(*a);
    break;
  case opAliasPart:
    if (a.has_value())
      a = (*a).v;
    break;
  case opDestroy:
    A.destroy();
    A.make();
    break;
  default:
    if constexpr (std::is_copy_constructible_v<P>) {
      switch (op) {
      case opCopyAsg: a = static_cast<O const &>(b); break;
      case opSelfCopy: {
        O const & alias = a;
        a = alias;
        break;
      }
      case opCopyCtor: {
        O c(static_cast<O const &>(a));
        out.r = val_of(c);
        break;
      }
      case opValAsgL: a = static_cast<P const &>(x); break;
      case opEmplaceL: a.emplace(static_cast<P const &>(x)); break;
      case opCtorL: {
        O c(static_cast<P const &>(x));
        out.r = val_of(c);
        break;
      }
      case opValueOrL: {
        P r = a.value_or(static_cast<P const &>(x));
        out.r = r.v;
        break;
      }
      case opDerefAsg:
        if (a.has_value())
          *a = static_cast<P const &>(x);
        break;
      case opAliasL:
        if (a.has_value())
          a = static_cast<P const &>(*a);
        break;
      case opAliasOr:
        if (a.has_value()) {
          P r = a.value_or(*a);
          out.r = r.v;
        }
        break;
      default: break;
      }
    }
    break;
  }
}

// P: payload. Performs k operations on fresh optionals; everything observable goes to out.
// FLAGS: the flavour tracks its flags (one per empty optional).
// Returns false if the schedule's exception point does not exist in this scenario.
template <class O, class P, bool FLAGS>
bool scenario(unsigned const * ops, unsigned k, unsigned sa, unsigned sb, int throw_in, int va, int vb, int vx, int vy, Outcome * outs)
{
  constexpr bool track = !std::is_trivially_destructible_v<P>; // the end of a payload's life is observable
  bool fired = true;
  W.clear();
  {
    Arena<O> A("memA"), B("memB");
    make_state(A, sa, va, vy);
    make_state(B, sb, vb, vy);
    {
      P x(vx);
      W.range(1, A.mem, sizeof(O));
      W.range(2, B.mem, sizeof(O));
      W.range(3, std::addressof(x), sizeof(P));
      W.throw_in = throw_in;
      for (unsigned step = 0; step < k; ++step) {
        Outcome & out = outs[step];
        out.threw = false;
        out.r = kNone;
        W.nlog = 0;
        W.recording = true;
        try {
          do_op<O, P>(ops[step], A, B, x, vy, out);
        }
        catch (Boom const & e) {
          CHECK(e.code == 4711, "the exception object is the one thrown");
          out.threw = true;
        }
        W.recording = false;
        O &a = *A.obj, &b = *B.obj;
        out.ah = a.has_value();
        out.bh = b.has_value();
        if (track)
          CHECK(W.nlive == 1 + (out.ah ? 1 : 0) + (out.bh ? 1 : 0), "exactly the held payloads are alive");
        if (track && out.ah)
          CHECK(W.is_live(std::addressof(*a)), "the engaged optional's payload is alive");
        if (track && out.bh)
          CHECK(W.is_live(std::addressof(*b)), "the other engaged optional's payload is alive");
        if (FLAGS)
          CHECK(W.nflags == (out.ah ? 0 : 1) + (out.bh ? 0 : 1), "exactly one initialised flag per empty optional");
        out.av = val_of(a);
        out.bv = val_of(b);
        out.xv = x.v;
        out.nlog = W.nlog;
        for (int i = 0; i < W.nlog; ++i)
          out.log[i] = W.log[i];
      }
      fired = !(throw_in > 0 && W.throw_in > 0);
      W.throw_in = 0;
      // still fully usable
      O &a = *A.obj, &b = *B.obj;
      a.emplace(vy);
      CHECK(a.has_value() && (std::is_empty_v<P> || (*a).v == vy), "usable afterwards");
      b.reset();
      CHECK(!b.has_value(), "reset works afterwards");
      if (track)
        CHECK(W.nlive == 2, "liveness afterwards");
      CHECK(A.guards_intact() && B.guards_intact(), "neighbouring memory untouched");
    }
    A.destroy();
    B.destroy();
  }
  CHECK(W.nlive == 0, "no payload outlives its optional");
  if (FLAGS)
    CHECK(W.nflags == 0, "no flag object outlives its optional");
  return fired;
}

inline unsigned const kMaxSteps = 3;

template <class O, class P, bool FLAGS>
void differential(unsigned first, unsigned last, unsigned max_throw, bool logs, unsigned k = 1)
{
  unsigned ops[kMaxSteps];
  bool uses_b = false;
  for (unsigned i = 0; i < k; ++i) {
    ops[i] = first + vp_choose(last - first, "operation");
    uses_b = uses_b || op_uses_b(ops[i]);
  }
  unsigned const sa = vp_choose(3, "state a");
  unsigned const sb = uses_b ? vp_choose(3, "state b") : 0;
  int const throw_in = static_cast<int>(max_throw ? 1 + vp_choose(max_throw, "throw at") : 0);
  int va = vp_int("va"), vb = vp_int("vb"), vx = vp_int("vx"), vy = vp_int("vy");
  vp_assume(va != kReserved && vb != kReserved && vx != kReserved && vy != kReserved);
  vp_assume((vy ^ 1) != kReserved && (vx ^ 0x40000000) != kReserved && (vb ^ 0x40000000) != kReserved
            && (va ^ 0x40000000) != kReserved && (vy ^ 0x40000000) != kReserved && (vy ^ 0x40000001) != kReserved);
  vp_cover("scheduled");
  Outcome ss[kMaxSteps], ts[kMaxSteps];
  bool const sfired = scenario<std::optional<P>, P, false>(ops, k, sa, sb, throw_in, va, vb, vx, vy, ss);
  bool const tfired = scenario<O, P, FLAGS>(ops, k, sa, sb, throw_in, va, vb, vx, vy, ts);
  if (!sfired || !tfired)
    vp_end(); // an exception point that only one of them has (or none): nothing to compare
  for (unsigned step = 0; step < k; ++step) {
    Outcome &s = ss[step], &t = ts[step];
    CHECK(s.threw == t.threw, "throws iff std::optional throws");
    CHECK(s.ah == t.ah, "has_value() as std::optional");
    CHECK(s.bh == t.bh, "other has_value() as std::optional");
    CHECK(s.av == t.av, "value as std::optional");
    CHECK(s.bv == t.bv, "other value as std::optional");
    CHECK(s.xv == t.xv, "source value as std::optional");
    CHECK(s.r == t.r, "result value as std::optional");
    if (logs) {
      CHECK(s.nlog == t.nlog, "same number of payload operations as std::optional");
      if (s.nlog == t.nlog)
        for (int i = 0; i < s.nlog; ++i) {
          CHECK(s.log[i].kind == t.log[i].kind, "same payload operation as std::optional");
          CHECK(s.log[i].role == t.log[i].role, "payload operation on the same object as std::optional");
          CHECK(s.log[i].val == t.log[i].val, "payload operation with the same value as std::optional");
        }
    }
    vp_obs(ops[step]);
    vp_obs(t.ah);
    vp_obs(t.bh);
    vp_obs(static_cast<unsigned>(t.nlog));
    vp_cover(t.threw ? "threw" : "completed");
    vp_cover(t.ah ? "engaged" : "empty");
  }
}

// flavours
#define COMMA ,
using TS = Tracked<false, true>; // throwing moves, own swap
using TN = Tracked<true, false>; // nothrow moves, std::swap
using TT = Tracked<false, false>; // throwing moves, std::swap
using RS = Registered<false, true>;
using RN = Registered<true, false>;
using MO = MoveOnly<true>;
using MOT = MoveOnly<false>;
template <class P>
using Sep = tiny::optional<P>;
template <class P>
using MemInt = tiny::optional<P, &P::v, kReserved>;
template <class P>
using Inpl = tiny::optional_inplace<P, TrackFM<P>>;
using WMS = WithMember<false, true>;
using WMN = WithMember<true, false>;
template <class P>
using MemTr = tiny::optional<P, &P::f>;
template <class P>
using MemDbl = tiny::optional<P, &P::d>;
template <class P>
using MemBool = tiny::optional<P, &P::b>;
