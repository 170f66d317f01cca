// Every public way to put a value into an optional and every way to empty it; used by several harnesses.
#pragma once
#include "vp.h"

template <class O>
using payload_t = typename O::value_type;

// Number of store ways. Ways >= kNumCtorWays need an assignable payload.
enum : unsigned { kNumCtorWays = 10, kNumStoreWays = 22 };

template <class O>
inline constexpr unsigned kStoreWays
    = std::is_assignable_v<payload_t<O> &, std::remove_cv_t<payload_t<O>> const &> ? kNumStoreWays : kNumCtorWays;

// Creates an optional in the arena that was made to hold v by 'way'. w: some other storable value.
template <class O, class V>
O & store_way(Arena<O> & A, unsigned way, V const & v, V const & w)
{
  using P = payload_t<O>;
  switch (way) {
  case 0: return A.make(v);
  case 1: return A.make(std::in_place, v);
  case 2: {
    V tmp = v;
    return A.make(std::move(tmp));
  }
  case 3: {
    O & o = A.make();
    o.emplace(v);
    return o;
  }
  case 4: {
    O & o = A.make(w);
    o.emplace(v);
    return o;
  }
  case 5: {
    O src(v);
    return A.make(src);
  }
  case 6: {
    O src(v);
    return A.make(std::move(src));
  }
  case 7: {
    O & o = A.make(std::nullopt);
    o.emplace(v);
    return o;
  }
  case 8: {
    O & o = A.make(w);
    o.reset();
    o.emplace(v);
    return o;
  }
  case 9: {
    O const src(std::in_place, v);
    return A.make(src);
  }
  default: break;
  }
  if constexpr (kStoreWays<O> > kNumCtorWays) {
    switch (way) {
    case 10: {
      O & o = A.make();
      o = v;
      return o;
    }
    case 11: {
      O & o = A.make(w);
      o = v;
      return o;
    }
    case 12: {
      O & o = A.make();
      O const src(v);
      o = src;
      return o;
    }
    case 13: {
      O & o = A.make(w);
      O const src(v);
      o = src;
      return o;
    }
    case 14: {
      O & o = A.make();
      o = O(v);
      return o;
    }
    case 15: {
      O & o = A.make(w);
      o = O(v);
      return o;
    }
    case 16: {
      O & o = A.make();
      O src(v);
      o.swap(src);
      return o;
    }
    case 17: {
      O & o = A.make(w);
      O src(v);
      swap(o, src);
      return o;
    }
    case 18: {
      O & o = A.make(w);
      *o = v;
      return o;
    }
    case 19: {
      O & o = A.make(w);
      o.value() = v;
      return o;
    }
    case 20: {
      O & o = A.make(w);
      o = std::nullopt;
      V tmp = v;
      o = std::move(tmp);
      return o;
    }
    case 21: {
      O & o = A.make(v);
      O & alias = o;
      o = alias; // self assignment
      return o;
    }
    default: break;
    }
  }
  vp_assume(0);
  (void)sizeof(P);
  return A.make();
}

enum : unsigned { kNumEmptyCtorWays = 6, kNumEmptyWays = 12 };
template <class O>
inline constexpr unsigned kEmptyWays
    = std::is_assignable_v<payload_t<O> &, std::remove_cv_t<payload_t<O>> const &> ? kNumEmptyWays : kNumEmptyCtorWays;

// Creates an empty optional in the arena. w: some storable value.
template <class O, class V>
O & empty_way(Arena<O> & A, unsigned way, V const & w)
{
  switch (way) {
  case 0: return A.make();
  case 1: return A.make(std::nullopt);
  case 2: {
    O & o = A.make(w);
    o.reset();
    return o;
  }
  case 3: {
    O & o = A.make(w);
    o = std::nullopt;
    return o;
  }
  case 4: {
    O const src;
    return A.make(src);
  }
  case 5: {
    O src(w);
    src.reset();
    return A.make(std::move(src));
  }
  default: break;
  }
  if constexpr (kEmptyWays<O> > kNumEmptyCtorWays) {
    switch (way) {
    case 6: {
      O & o = A.make(w);
      O const src;
      o = src;
      return o;
    }
    case 7: {
      O & o = A.make(w);
      o = O();
      return o;
    }
    case 8: {
      O & o = A.make(w);
      if constexpr (std::is_volatile_v<payload_t<O>>)
        o = std::nullopt; // for a volatile scalar the standard's rules make {} a value
      else
        o = {};
      return o;
    }
    case 9: {
      O & o = A.make(w);
      O src;
      o.swap(src);
      return o;
    }
    case 10: {
      O & o = A.make();
      O const src;
      o = src;
      return o;
    }
    case 11: {
      O & o = A.make();
      O src;
      swap(o, src);
      return o;
    }
    default: break;
    }
  }
  vp_assume(0);
  return A.make();
}

// All ways to observe an engaged optional agree that it holds exactly the bits of v.
template <class O, class V>
void check_holds(O & o, V const & v)
{
  O const & c = o;
  CHECK(o.has_value(), "engaged: has_value()");
  CHECK(static_cast<bool>(c), "engaged: operator bool");
  CHECK(c != std::nullopt, "engaged: != nullopt");
  CHECK(!(std::nullopt == c), "engaged: nullopt ==");
  CHECK(same_bits<V>(const_cast<V const &>(*o), v), "engaged: *o has the bits stored");
  CHECK(same_bits<V>(const_cast<V const &>(*c), v), "engaged: *const o has the bits stored");
  CHECK(std::addressof(*o) == std::addressof(*c), "engaged: one payload");
  CHECK(std::addressof(o.value()) == std::addressof(*o), "engaged: value() is the payload");
  CHECK(o.operator->() == std::addressof(*o), "engaged: -> is the payload");
  vp_cover("holds");
}
template <class O>
void check_empty(O & o)
{
  O const & c = o;
  CHECK(!o.has_value(), "empty: has_value()");
  CHECK(!static_cast<bool>(c), "empty: operator bool");
  CHECK(c == std::nullopt, "empty: == nullopt");
  CHECK(!(std::nullopt != c), "empty: nullopt !=");
  bool threw = false;
  try {
    (void)o.value();
  }
  catch (std::bad_optional_access const &) {
    threw = true;
  }
  CHECK(threw, "empty: value() throws bad_optional_access");
  vp_cover("empty");
}

// The generic value-preservation harness: for every storable v (and every other storable w) and every way.
template <class O, class V, class Storable>
void run_preserve(Storable storable)
{
  Any<V> v("v"), w("w");
  vp_assume(storable(v.v) && storable(w.v));
  Arena<O> A("mem");
  unsigned way = vp_choose(kStoreWays<O>, "store way");
  O & o = store_way<O, V>(A, way, v.v, w.v);
  check_holds(o, v.v);
  CHECK(A.guards_intact(), "neighbouring memory untouched");
  // still so after copying from it, then emptied
  {
    O const copy(o);
    CHECK(copy.has_value() && same_bits<V>(const_cast<V const &>(*copy), v.v), "copy holds the same bits");
  }
  check_holds(o, v.v);
  o.reset();
  check_empty(o);
  o.emplace(w.v);
  check_holds(o, w.v);
  CHECK(A.guards_intact(), "neighbouring memory untouched after emplace");
  vp_obs(way);
  vp_obs(o.has_value());
  A.destroy();
  CHECK(A.guards_intact(), "neighbouring memory untouched by destructor");
}

template <class O, class V, class Storable>
void run_empty(Storable storable)
{
  Any<V> w("w"), v("v");
  vp_assume(storable(w.v) && storable(v.v));
  Arena<O> A("mem");
  unsigned way = vp_choose(kEmptyWays<O>, "empty way");
  O & o = empty_way<O, V>(A, way, w.v);
  check_empty(o);
  CHECK(A.guards_intact(), "neighbouring memory untouched");
  {
    O const copy(o);
    CHECK(!copy.has_value(), "copy of empty is empty");
  }
  O moved(std::move(o));
  CHECK(!moved.has_value(), "move of empty is empty");
  check_empty(o);
  o.reset();
  check_empty(o);
  o.emplace(v.v);
  check_holds(o, v.v);
  vp_obs(way);
  A.destroy();
}

#define PRESERVE(name, OPT, V, storable)                                                                               \
  VP_HARNESS(name##_keep) { run_preserve<OPT, V>(storable); }                                                          \
  VP_HARNESS(name##_empty) { run_empty<OPT, V>(storable); }
