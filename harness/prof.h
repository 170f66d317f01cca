// Tracked payloads with every combination of type traits an implementation could be tempted to special-case.
#pragma once
#include "life.h"

enum : unsigned {
  fCC = 1, // noexcept copy constructor
  fMC = 2, // noexcept move constructor
  fCA = 4, // noexcept copy assignment
  fMA = 8, // noexcept move assignment
  fIC = 16, // noexcept constructor from int
  fTC = 32, // noexcept constructor from two ints
  fIA = 64, // noexcept assignment of an int
  fSW = 128, // own swap
  fNS = 256, // the own swap is noexcept
  fDC = 512 // a noexcept default constructor
};

// TRACK: has a destructor that ends the tracked life
#define PROF_CTORS(NAME, TRACK)                                                                                        \
  void made(int value) noexcept                                                                                        \
  {                                                                                                                    \
    v = value;                                                                                                         \
    b = true;                                                                                                          \
    d = 1.0;                                                                                                           \
    if constexpr (TRACK)                                                                                               \
      W.born(this);                                                                                                    \
    else                                                                                                               \
      CHECK(!W.is_flag(this), "payload constructed over a live flag object");                                          \
  }                                                                                                                    \
  static void use(void const * p)                                                                                      \
  {                                                                                                                    \
    if constexpr (TRACK)                                                                                               \
      W.used(p);                                                                                                       \
  }                                                                                                                    \
  template <bool NE>                                                                                                   \
  void fail_point() noexcept(NE)                                                                                       \
  {                                                                                                                    \
    if constexpr (!NE)                                                                                                 \
      if (W.throw_in > 0 && W.recording) {                                                                             \
        v = GARBAGE;                                                                                                   \
        W.point(this);                                                                                                 \
      }                                                                                                                \
  }                                                                                                                    \
  template <unsigned U = T, std::enable_if_t<(U & fDC) != 0, int> = 0>                                                 \
  NAME() noexcept                                                                                                      \
  {                                                                                                                    \
    W.event(kCtorNone, this, 0);                                                                                       \
    made(0);                                                                                                           \
  }                                                                                                                    \
  NAME(int x) noexcept((T & fIC) != 0)                                                                                 \
  {                                                                                                                    \
    fail_point<(T & fIC) != 0>();                                                                                      \
    W.event(kCtorInt, this, x);                                                                                        \
    made(x);                                                                                                           \
  }                                                                                                                    \
  NAME(int x, int y) noexcept((T & fTC) != 0)                                                                          \
  {                                                                                                                    \
    fail_point<(T & fTC) != 0>();                                                                                      \
    W.event(kCtorTwo, this, x);                                                                                        \
    made(x ^ y);                                                                                                       \
  }                                                                                                                    \
  NAME(std::initializer_list<int> il, int y) noexcept((T & fTC) != 0)                                                  \
  {                                                                                                                    \
    fail_point<(T & fTC) != 0>();                                                                                      \
    W.event(kCtorIl, this, static_cast<int>(il.size()));                                                               \
    made(*il.begin() ^ y);                                                                                             \
  }

#define PROF_COPIES(NAME)                                                                                              \
  NAME(NAME const & o) noexcept((T & fCC) != 0)                                                                        \
  {                                                                                                                    \
    use(std::addressof(o));                                                                                                           \
    fail_point<(T & fCC) != 0>();                                                                                      \
    W.event(kCopy, this, o.v);                                                                                         \
    made(o.v);                                                                                                         \
  }                                                                                                                    \
  NAME(NAME && o) noexcept((T & fMC) != 0)                                                                             \
  {                                                                                                                    \
    use(std::addressof(o));                                                                                                           \
    fail_point<(T & fMC) != 0>();                                                                                      \
    W.event(kMove, this, o.v);                                                                                         \
    made(o.v);                                                                                                         \
    o.v = kMovedFrom;                                                                                                  \
  }                                                                                                                    \
  NAME & operator=(NAME const & o) noexcept((T & fCA) != 0)                                                            \
  {                                                                                                                    \
    use(this);                                                                                                         \
    use(std::addressof(o));                                                                                                           \
    if constexpr ((T & fCA) == 0) {                                                                                    \
      if (W.throw_in == 1 && W.recording)                                                                              \
        v = o.v ^ 0x40000000;                                                                                          \
      W.point(this);                                                                                                   \
    }                                                                                                                  \
    W.event(kCopyAsg, this, o.v);                                                                                      \
    v = o.v;                                                                                                           \
    return *this;                                                                                                      \
  }                                                                                                                    \
  NAME & operator=(NAME && o) noexcept((T & fMA) != 0)                                                                 \
  {                                                                                                                    \
    use(this);                                                                                                         \
    use(std::addressof(o));                                                                                                           \
    if constexpr ((T & fMA) == 0)                                                                                      \
      W.point(this);                                                                                                   \
    W.event(kMoveAsg, this, o.v);                                                                                      \
    int t = o.v;                                                                                                       \
    o.v = kMovedFrom;                                                                                                  \
    v = t;                                                                                                             \
    return *this;                                                                                                      \
  }

#define PROF_INTASG(NAME)                                                                                              \
  NAME & operator=(int x) noexcept((T & fIA) != 0)                                                                     \
  {                                                                                                                    \
    use(this);                                                                                                         \
    if constexpr ((T & fIA) == 0)                                                                                      \
      W.point(this);                                                                                                   \
    W.event(kIntAsg, this, x);                                                                                         \
    v = x;                                                                                                             \
    return *this;                                                                                                      \
  }

#define PROF_DTOR(NAME)                                                                                                \
  {                                                                                                                    \
    W.event(kDtor, this, 0);                                                                                           \
    W.died(this);                                                                                                      \
    int g = GARBAGE;                                                                                                   \
    std::memcpy(static_cast<void *>(const_cast<int *>(&v)), &g, sizeof g);                                             \
    unsigned char gb = static_cast<unsigned char>(g);                                                                  \
    std::memcpy(static_cast<void *>(&b), &gb, 1);                                                                      \
    long long gd = g;                                                                                                  \
    std::memcpy(static_cast<void *>(&d), &gd, 8);                                                                      \
  }

// plain class with destructor
template <unsigned T>
struct Prof
{
  double d;
  int v;
  bool b;
  PROF_CTORS(Prof, true)
  PROF_COPIES(Prof)
  PROF_INTASG(Prof)
  ~Prof() PROF_DTOR(Prof)
};
// trivially destructible, non-trivially copyable
template <unsigned T>
struct ProfD
{
  double d;
  int v;
  bool b;
  PROF_CTORS(ProfD, false)
  PROF_COPIES(ProfD)
  PROF_INTASG(ProfD)
};
// trivially copyable, but constructors that may throw
template <unsigned T>
struct ProfC
{
  double d;
  int v;
  bool b;
  PROF_CTORS(ProfC, false)
  PROF_INTASG(ProfC)
};
// copy operations only (declared, defaulted): no move operations
template <unsigned T>
struct ProfA
{
  double d;
  int v;
  bool b;
  PROF_CTORS(ProfA, false)
  ProfA(ProfA const &) = default;
  ProfA & operator=(ProfA const &) = default;
  PROF_INTASG(ProfA)
};
// polymorphic, over-aligned, final
template <unsigned T>
struct alignas(32) ProfV final
{
  double d;
  int v;
  bool b;
  PROF_CTORS(ProfV, true)
  PROF_COPIES(ProfV)
  PROF_INTASG(ProfV)
  virtual ~ProfV() PROF_DTOR(ProfV)
  virtual int get() const { return v; }
};
// overloads the operators generic code has to avoid
struct Decoy
{
};
template <unsigned T>
struct ProfH
{
  double d;
  int v;
  bool b;
  PROF_CTORS(ProfH, true)
  PROF_COPIES(ProfH)
  PROF_INTASG(ProfH)
  ~ProfH() PROF_DTOR(ProfH)
  ProfH * operator&() const
  {
    CHECK(false, "the payload's operator& is not used");
    return nullptr;
  }
  static void * operator new(std::size_t, void * p)
  {
    CHECK(false, "the payload's operator new is not used");
    return p;
  }
  static void * operator new(std::size_t) = delete;
  static void operator delete(void *)
  {
    CHECK(false, "the payload's operator delete is not used");
  }
  template <class X>
  Decoy operator,(X &&) const
  {
    CHECK(false, "the payload's comma operator is not used");
    return Decoy{};
  }
  explicit operator bool() const
  {
    CHECK(false, "the payload's conversion to bool is not used");
    return false;
  }
  bool operator!() const
  {
    CHECK(false, "the payload's operator! is not used");
    return true;
  }
  Decoy operator*() const
  {
    CHECK(false, "the payload's operator* is not used");
    return Decoy{};
  }
};
// no data members at all
template <unsigned T>
struct ProfE
{
  static constexpr int v = 0;
  ProfE(int) noexcept((T & fIC) != 0)
  {
    if constexpr ((T & fIC) == 0)
      W.point(this);
    W.event(kCtorInt, this, 0);
    W.born(this);
  }
  ProfE(int, int)
  {
    W.point(this);
    W.event(kCtorTwo, this, 0);
    W.born(this);
  }
  ProfE(std::initializer_list<int>, int)
  {
    W.point(this);
    W.event(kCtorIl, this, 0);
    W.born(this);
  }
  ProfE(ProfE const & o) noexcept((T & fCC) != 0)
  {
    W.used(std::addressof(o));
    if constexpr ((T & fCC) == 0)
      W.point(this);
    W.event(kCopy, this, 0);
    W.born(this);
  }
  ProfE(ProfE && o) noexcept((T & fMC) != 0)
  {
    W.used(std::addressof(o));
    if constexpr ((T & fMC) == 0)
      W.point(this);
    W.event(kMove, this, 0);
    W.born(this);
  }
  ProfE & operator=(ProfE const & o)
  {
    W.used(this);
    W.used(std::addressof(o));
    W.point(this);
    W.event(kCopyAsg, this, 0);
    return *this;
  }
  ProfE & operator=(ProfE && o) noexcept((T & fMA) != 0)
  {
    W.used(this);
    W.used(std::addressof(o));
    if constexpr ((T & fMA) == 0)
      W.point(this);
    W.event(kMoveAsg, this, 0);
    return *this;
  }
  ProfE & operator=(int)
  {
    W.used(this);
    W.point(this);
    W.event(kIntAsg, this, 0);
    return *this;
  }
  ~ProfE()
  {
    W.event(kDtor, this, 0);
    W.died(this);
  }
};

template <template <unsigned> class P, unsigned T, std::enable_if_t<(T & fSW) != 0, int> = 0>
void swap(P<T> & x, P<T> & y) noexcept((T & fNS) != 0)
{
  if constexpr (!std::is_trivially_destructible_v<P<T>>) {
    W.used(std::addressof(x));
    W.used(std::addressof(y));
  }
  if constexpr ((T & fNS) == 0)
    W.point(std::addressof(x));
  W.event(kSwap, std::addressof(x), y.v);
  if constexpr (!std::is_empty_v<P<T>>) {
    int t = x.v;
    x.v = y.v;
    y.v = t;
  }
}

static_assert(std::is_nothrow_swappable_v<Prof<fSW | fNS>> && !std::is_nothrow_move_constructible_v<Prof<fSW | fNS>>);
static_assert(std::is_trivially_copyable_v<ProfC<0>> && !std::is_nothrow_constructible_v<ProfC<0>, int>);
static_assert(std::is_trivially_destructible_v<ProfD<0>> && !std::is_trivially_copyable_v<ProfD<0>>);
static_assert(std::is_empty_v<ProfE<0>>);

inline constexpr unsigned kAll = fCC | fMC | fCA | fMA | fIC | fTC | fIA;
using P_construct = Prof<fCC | fMC | fSW | fDC>; // nothrow constructible, throwing assignment
using P_assign = Prof<fCA | fMA>; // nothrow assignable, throwing construction
using P_copies = Prof<fCC | fCA | fIC | fIA>; // nothrow copies, throwing moves
using P_nswap = Prof<fMA | fSW | fNS | fDC>; // nothrow swap, throwing move construction
using P_all = Prof<kAll>; // nothrow everything
using P_alls = Prof<kAll | fSW | fNS>;
using P_ints = Prof<fIC | fTC | fIA | fSW>; // only the conversions are nothrow
using D_none = ProfD<0>;
using D_swap = ProfD<fMC | fSW>;
using D_nswap = ProfD<fMA | fSW | fNS>;
using D_all = ProfD<kAll>;
using D_construct = ProfD<fCC | fMC | fIC | fDC>;
using C_none = ProfC<0>;
using C_swap = ProfC<fSW>;
using C_nswap = ProfC<fSW | fNS | fIC | fTC | fDC>;
using A_none = ProfA<fSW>;
using V_none = ProfV<0>;
using V_all = ProfV<kAll>;
using H_none = ProfH<fSW>;
using H_all = ProfH<kAll>;
using E_none = ProfE<fSW>;
using E_move = ProfE<fMC | fMA | fCC>;

// X(name, flavour, payload, tracks its flags)
#define PROFILES(X)                                                                                                    \
  X(sep_construct, Sep<P_construct>, P_construct, false)                                                               \
  X(sep_assign, Sep<P_assign>, P_assign, false)                                                                        \
  X(mem_assign, MemInt<P_assign>, P_assign, false)                                                                     \
  X(inp_construct, Inpl<P_construct>, P_construct, true)                                                               \
  X(sep_copies, Sep<P_copies>, P_copies, false)                                                                        \
  X(inp_copies, Inpl<P_copies>, P_copies, true)                                                                        \
  X(sep_nswap, Sep<P_nswap>, P_nswap, false)                                                                           \
  X(mem_nswap, MemInt<P_nswap>, P_nswap, false)                                                                        \
  X(mem_alls, MemInt<P_alls>, P_alls, false)                                                                           \
  X(sep_ints, Sep<P_ints>, P_ints, false)                                                                              \
  X(sep_Dnone, Sep<D_none>, D_none, false)                                                                             \
  X(mem_Dswap, MemInt<D_swap>, D_swap, false)                                                                          \
  X(inp_Dnone, Inpl<D_none>, D_none, true)                                                                             \
  X(inp_Dconstruct, Inpl<D_construct>, D_construct, true)                                                              \
  X(mem_Dall, MemInt<D_all>, D_all, false)                                                                             \
  X(sep_Dnswap, Sep<D_nswap>, D_nswap, false)                                                                          \
  X(sep_Cnone, Sep<C_none>, C_none, false)                                                                             \
  X(mem_Cnone, MemInt<C_none>, C_none, false)                                                                          \
  X(inp_Cswap, Inpl<C_swap>, C_swap, true)                                                                             \
  X(mem_Cnswap, MemInt<C_nswap>, C_nswap, false)                                                                       \
  X(inp_Anone, Inpl<A_none>, A_none, true)                                                                             \
  X(sep_Vnone, Sep<V_none>, V_none, false)                                                                             \
  X(mem_Vall, MemInt<V_all>, V_all, false)                                                                             \
  X(sep_Hnone, Sep<H_none>, H_none, false)                                                                             \
  X(mem_Hall, MemInt<H_all>, H_all, false)                                                                             \
  X(inp_Hnone, Inpl<H_none>, H_none, true)                                                                             \
  X(sep_Enone, Sep<E_none>, E_none, false)                                                                             \
  X(sep_Emove, Sep<E_move>, E_move, false)
