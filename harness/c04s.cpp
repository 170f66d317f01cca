// C04: further kinds of flag members and payload classes.
#define VP_C04_NO_HARNESS
#include "c04.cpp"

// every integral and character kind of member
struct Kinds
{
  using T_ = Kinds;
  signed char sc;
  char16_t c16;
  wchar_t wc;
  char32_t c32;
  long l;
  unsigned long long ull;
  char c;
  unsigned long ul;
  REFLECT(M1(sc) M1(c16) M1(wc) M1(c32) M1(l) M1(ull) M1(c) M1(ul),
          S1(sc) && S1(c16) && S1(wc) && S1(c32) && S1(l) && S1(ull) && S1(c) && S1(ul))
};
MEM(k_sc, tiny::optional<Kinds COMMA & Kinds::sc COMMA - 128>, Kinds, s.sc == -128)
MEM(k_c16, tiny::optional<Kinds COMMA & Kinds::c16 COMMA u'\xffff'>, Kinds, s.c16 == u'\xffff')
MEM(k_wc, tiny::optional<Kinds COMMA & Kinds::wc COMMA L'w'>, Kinds, s.wc == L'w')
MEM(k_c32, tiny::optional<Kinds COMMA & Kinds::c32 COMMA U'\x00ffff'>, Kinds, s.c32 == U'\x00ffff')
MEM(k_l, tiny::optional<Kinds COMMA & Kinds::l COMMA LONG_MIN>, Kinds, s.l == LONG_MIN)
MEM(k_ull, tiny::optional<Kinds COMMA & Kinds::ull COMMA 0x8000000000000001ull>, Kinds, s.ull == 0x8000000000000001ull)
MEM(k_c, tiny::optional<Kinds COMMA & Kinds::c COMMA 'z'>, Kinds, s.c == 'z')
MEM(k_ul, tiny::optional<Kinds COMMA & Kinds::ul COMMA 7>, Kinds, s.ul == 7)

// a flag member far from the start of the payload, one in a class with a virtual destructor, one in a non trivial class
struct Far
{
  using T_ = Far;
  char head;
  char pad[298];
  int i;
  bool flag;
  char tail;
  void vp_fill(char const * n)
  {
    M1(head) M1(i) M1(flag) M1(tail)
    std::memset(pad, 5, sizeof pad);
  }
  bool vp_same(Far const & o) const { return S1(head) && S1(i) && S1(flag) && S1(tail) && pad[0] == 5 && pad[255] == 5 && pad[256] == 5 && pad[297] == 5; }
};
MEM(far_i, tiny::optional<Far COMMA & Far::i COMMA 9>, Far, s.i == 9)
struct Poly
{
  using T_ = Poly;
  Poly() = default;
  Poly(Poly const & o) : a(o.a), flag(o.flag), i(o.i) { }
  Poly & operator=(Poly const & o)
  {
    i = o.i;
    flag = o.flag;
    a = o.a;
    return *this;
  }
  virtual ~Poly() { }
  short a;
  bool flag;
  int i;
  REFLECT(M1(a) M1(flag) M1(i), S1(a) && S1(flag) && S1(i))
};
MEM(poly_i, tiny::optional<Poly COMMA & Poly::i COMMA - 1>, Poly, s.i == -1)
struct Pair
{
  using T_ = Pair;
  Pair() = default;
  int x, y;
  void * p;
  Pair(Pair const & o) : x(o.x), y(o.y), p(o.p) { }
  Pair(Pair && o) noexcept : x(o.x), y(o.y), p(o.p) { }
  Pair & operator=(Pair const &) = default;
  ~Pair() { x = y = 77; }
  REFLECT(M1(x) M1(y) M1(p), S1(x) && S1(y) && S1(p))
};
MEM(pair_x, tiny::optional<Pair COMMA & Pair::x COMMA 77>, Pair, s.x == 77)
MEM(pair_y, tiny::optional<Pair COMMA & Pair::y COMMA 0>, Pair, s.y == 0)
MEM(pair_p, tiny::optional<Pair COMMA & Pair::p COMMA nullptr>, Pair, s.p == nullptr)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
MEM(far_flag, tiny::optional<Far COMMA & Far::flag>, Far, bits_of(s.flag) == 0xfe)
MEM(poly_flag, tiny::optional<Poly COMMA & Poly::flag>, Poly, bits_of(s.flag) == 0xfe)
MEM(pair_ptr, tiny::optional<Pair COMMA & Pair::p>, Pair, bits_of(s.p) == kPtrSentinel)
#endif

// const and volatile members: the payload cannot be assigned
#define MEMC(name, OPT, S, RESERVED)                                                                                   \
  using O_##name = OPT;                                                                                                \
  struct Ok_##name                                                                                                     \
  {                                                                                                                    \
    bool operator()([[maybe_unused]] S const & s) const { return !kMem || !(RESERVED); }                               \
  };                                                                                                                   \
  PRESERVE(name, O_##name, S, Ok_##name{})                                                                             \
  VP_HARNESS(name##_raw) { raw_meaning<O_##name, S>(Ok_##name{}); }
struct Cm
{
  using T_ = Cm;
  Cm() : i(1), flag(true), d(1.5) { }
  Cm(Cm const &) = default;
  int a;
  int const i;
  bool const flag;
  double const d;
  REFLECT(M1(a) M1(i) M1(flag) M1(d), S1(a) && S1(i) && S1(flag) && S1(d))
};
MEMC(c_i, tiny::optional<Cm COMMA & Cm::i COMMA 3>, Cm, s.i == 3)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
MEMC(c_flag, tiny::optional<Cm COMMA & Cm::flag>, Cm, bits_of(s.flag) == 0xfe)
MEMC(c_d, tiny::optional<Cm COMMA & Cm::d>, Cm, bits_of(s.d) == kDoubleSentinel)
#endif
struct Vm
{
  using T_ = Vm;
  int a;
  int volatile i;
  bool volatile flag;
  REFLECT(M1(a) M1(i) M1(flag), S1(a) && S1(i) && S1(flag))
};
MEM(v_i, tiny::optional<Vm COMMA & Vm::i COMMA 3>, Vm, s.i == 3)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
MEM(v_flag, tiny::optional<Vm COMMA & Vm::flag>, Vm, bits_of(s.flag) == 0xfe)
#endif
