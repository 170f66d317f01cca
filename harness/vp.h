// Harness interface. The vp_* functions are interpreted by the symbolic engine (engine/vpsym.cpp) and implemented
// natively by native.cpp, where the "symbolic" values come from a recorded input vector (replay).
#pragma once
#include <cassert>
#include <climits>
#include <cmath>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>

// "gcc persona": let tiny/optional.h take its gcc code paths although the IR is made by clang.
#if defined(VP_GCC_PERSONA) && defined(__clang__)
  #undef __clang__
  #undef __GNUC__
  #define __GNUC__ 13
  #include "tiny/optional.h"
  #define __clang__ 1
#else
  #include "tiny/optional.h"
#endif

extern "C" {
unsigned long long vp_sym(unsigned bits, char const * name);
void vp_sym_bytes(void * p, unsigned long n, char const * name);
unsigned vp_choose(unsigned n, char const * name); // a value < n; the engine forks on it
void vp_assume(int c);
void vp_assert(int c, char const * msg);
void vp_cover(char const * label); // reachability witness
void vp_obs(unsigned long long v); // observation, compared between encoding and native run
int vp_symbolic(void);
void vp_allow_assert(int on); // from now on a failing assert() ends the path normally
void vp_allow_terminate(int on);
void * vp_page(unsigned long n); // memory of its own (natively: pages)
void vp_seal(void * page, int on); // on: from now on every write to the page is a failure
void vp_end(void) __attribute__((noreturn));
}

#define VP_HARNESS(name) extern "C" __attribute__((noinline, used)) void vp_h_##name()
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)

// --- configuration facts ---------------------------------------------------------------------------------------
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
inline constexpr bool kBits = false;
#else
inline constexpr bool kBits = true;
#endif
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
inline constexpr bool kMem = false;
#else
inline constexpr bool kMem = true;
#endif
#ifdef NDEBUG
inline constexpr bool kAsserts = false;
#else
inline constexpr bool kAsserts = true;
#endif
inline constexpr bool k32 = sizeof(void *) == 4;
#if __cplusplus >= 202002L
  #define VP_CXX20 1
#endif
#if __cplusplus > 202002L
  #define VP_CXX23 1
#endif

// --- symbolic values -------------------------------------------------------------------------------------------
inline bool vp_bool(char const * n)
{
  return vp_sym(1, n) != 0;
}
// Payload structs with padding or bool members: vp_fill() makes each member symbolic, vp_same() compares memberwise.
template <class T, class = void>
struct HasFill : std::false_type
{
};
template <class T>
struct HasFill<T, std::void_t<decltype(std::declval<T &>().vp_fill(""))>> : std::true_type
{
};
template <class T>
inline void vp_any_into(T & v, char const * name)
{
  using U = std::remove_cv_t<T>;
  if constexpr (std::is_same_v<U, bool>) {
    const_cast<U &>(v) = vp_bool(name);
  }
  else if constexpr (HasFill<U>::value) {
    const_cast<U &>(v).vp_fill(name);
  }
  else {
    static_assert(std::is_trivially_copyable_v<U>);
    vp_sym_bytes(const_cast<U *>(std::addressof(v)), sizeof(U), name);
  }
}
// A symbolic value, kept in memory (never returned in an FPU register, which could alter NaN bits).
template <class T>
struct Any
{
  T v;
  explicit Any(char const * name) { vp_any_into(v, name); }
};

// Raw bits of an object of up to 8 bytes, zero extended.
template <class T>
inline unsigned long long bits_of(T const & v)
{
  static_assert(sizeof(T) <= 8);
  unsigned long long r = 0;
  std::memcpy(&r, const_cast<std::remove_cv_t<T> const *>(std::addressof(v)), sizeof(T));
  return r;
}
template <class T>
inline bool same_bits(T const & a, T const & b)
{
  if constexpr (HasFill<std::remove_cv_t<T>>::value)
    return const_cast<std::remove_cv_t<T> const &>(a).vp_same(const_cast<std::remove_cv_t<T> const &>(b));
  else
    return std::memcmp(
               const_cast<std::remove_cv_t<T> const *>(std::addressof(a)),
               const_cast<std::remove_cv_t<T> const *>(std::addressof(b)),
               sizeof(T))
           == 0;
}

#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define CHECK(c, msg) vp_assert((c) ? 1 : 0, msg " [" VP_STR(__LINE__) "]")

// Placement arena: an object of type T between symbolic guard bytes, in symbolic stale memory.
template <class T>
struct Arena
{
  static constexpr unsigned long G = 16;
  alignas(16) unsigned char pre[G];
  alignas(16) unsigned char mem[(sizeof(T) + 15) / 16 * 16];
  unsigned char post[G];
  unsigned char pre0[G], post0[G];
  unsigned char tail0[(sizeof(T) + 15) / 16 * 16];
  T * obj = nullptr;

  explicit Arena(char const * name)
  {
    vp_sym_bytes(pre, G, name);
    vp_sym_bytes(mem, sizeof mem, name);
    vp_sym_bytes(post, G, name);
    std::memcpy(pre0, pre, G);
    std::memcpy(post0, post, G);
    std::memcpy(tail0, mem, sizeof mem);
  }
  template <class... A>
  T & make(A &&... a)
  {
    obj = ::new (static_cast<void *>(mem)) T(std::forward<A>(a)...);
    return *obj;
  }
  void destroy()
  {
    obj->~T();
    obj = nullptr;
  }
  bool guards_intact() const
  {
    return std::memcmp(pre, pre0, G) == 0 && std::memcmp(post, post0, G) == 0
           && std::memcmp(mem + sizeof(T), tail0 + sizeof(T), sizeof mem - sizeof(T)) == 0;
  }
};
