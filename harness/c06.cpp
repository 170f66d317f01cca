// C06: every payload is constructed and destroyed exactly once.
#include "life.h"
#define LIFE_H(name, O, P, F) VP_HARNESS(name##_ops) { differential<O, P, F>(0, opEnd, 0, false); }

LIFE_H(sep_ts, Sep<TS>, TS, false)
LIFE_H(sep_tn, Sep<TN>, TN, false)
LIFE_H(sep_mo, Sep<MO>, MO, false)
LIFE_H(memint_ts, MemInt<TS>, TS, false)
LIFE_H(memint_tn, MemInt<TN>, TN, false)
LIFE_H(inpl_ts, Inpl<TS>, TS, true)
LIFE_H(inpl_mo, Inpl<MO>, MO, true)
LIFE_H(reg_rs, tiny::optional<RS>, RS, true)
LIFE_H(memtr, MemTr<WMS>, WMS, kMem)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
LIFE_H(memdbl_ts, MemDbl<TS>, TS, false)
LIFE_H(membool_tt, MemBool<TT>, TT, false)
#endif

// const payloads and payloads that can neither be copied nor moved
template <class O>
static void restricted()
{
  W.clear();
  int v = vp_int("v"), w = vp_int("w");
  vp_assume(v != kReserved && w != kReserved && (v ^ w) != kReserved);
  unsigned const way = vp_choose(5, "way");
  {
    Arena<O> A("mem");
    switch (way) {
    case 0: A.make(std::in_place, v); break;
    case 1:
      A.make();
      A.obj->emplace(v);
      break;
    case 2:
      A.make(std::in_place, w);
      A.obj->emplace(v);
      break;
    case 3:
      A.make(std::in_place, w);
      A.obj->reset();
      CHECK(W.nlive == 0, "reset destroys");
      A.obj->emplace(v);
      break;
    default:
      A.make(std::in_place, w);
      *A.obj = std::nullopt;
      CHECK(W.nlive == 0, "nullopt destroys");
      A.obj->reset();
      A.obj->emplace(v);
      break;
    }
    CHECK(W.nlive == 1, "one payload");
    CHECK(A.obj->has_value() && (**A.obj).v == v, "value");
    CHECK(W.is_live(std::addressof(**A.obj)), "it is the payload");
    if (vp_choose(2, "reset first")) {
      A.obj->reset();
      CHECK(W.nlive == 0, "reset destroys the payload");
    }
    A.destroy();
    CHECK(A.guards_intact(), "neighbours");
  }
  CHECK(W.nlive == 0, "destroyed exactly once");
  vp_cover("done");
}
VP_HARNESS(pinned_sep) { restricted<tiny::optional<Pinned>>(); }
VP_HARNESS(pinned_mem) { restricted<tiny::optional<Pinned, &Pinned::own, kReserved>>(); }
VP_HARNESS(const_sep) { restricted<tiny::optional<TN const>>(); }
VP_HARNESS(const_reg) { restricted<tiny::optional_inplace<RN const, TrackFM<RN>>>(); }

// copies of optionals with const payload
VP_HARNESS(const_copy)
{
  W.clear();
  int v = vp_int("v");
  unsigned const st = vp_choose(2, "engaged");
  {
    using O = tiny::optional<TS const>;
    O a;
    if (st)
      a.emplace(v);
    O b(a);
    O c(std::move(a));
    CHECK(b.has_value() == (st != 0) && c.has_value() == (st != 0) && a.has_value() == (st != 0), "state");
    CHECK(W.nlive == (st ? 3 : 0), "three payloads");
    if (st)
      CHECK((*b).v == v && (*c).v == v && (*a).v == v, "values (a const payload is copied)");
    b.reset();
    CHECK(W.nlive == (st ? 2 : 0), "two payloads");
  }
  CHECK(W.nlive == 0, "none left");
  vp_cover("done");
}
