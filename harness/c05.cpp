// C05: flag manipulators see a strict lifecycle, in every operation, also when payload operations throw.
#include "life.h"
#define FLAGS_H(name, O, P, MEMF)                                                                                      \
  VP_HARNESS(name##_ops) { differential<O, P, MEMF>(0, opEnd, 0, false); }                                             \
  VP_HARNESS(name##_throw) { differential<O, P, MEMF>(0, opEnd, 3, false); }

FLAGS_H(inpl_ts, Inpl<TS>, TS, true)
FLAGS_H(inpl_tn, Inpl<TN>, TN, true)
FLAGS_H(reg_rs, tiny::optional<RS>, RS, true)
FLAGS_H(reg_rn, tiny::optional<RN>, RN, true)
FLAGS_H(inpl_mo, Inpl<MO>, MO, true)
FLAGS_H(inpl_mot, Inpl<MOT>, MOT, true)
// (with the member trick disabled there are no flag objects in members)
FLAGS_H(mem_ts, MemTr<WMS>, WMS, kMem)
FLAGS_H(mem_tn, MemTr<WMN>, WMN, kMem)

// Payloads that can only be made in place; transform() into such flavours; throwing callables.
template <class O, class P>
static void pinned()
{
  W.clear();
  int v = vp_int("v"), w = vp_int("w");
  vp_assume(v != kReserved && w != kReserved && (v ^ w) != kReserved);
  unsigned const way = vp_choose(4, "way");
  unsigned const t = vp_choose(2, "throw");
  {
    W.recording = true;
    try {
      W.throw_in = t ? 1 : 0;
      Arena<O> A("mem");
      switch (way) {
      case 0: {
        O o(std::in_place, v);
        CHECK(o.has_value() && (*o).v == v, "in_place");
        break;
      }
      case 1: {
        O o(std::in_place, v, w);
        CHECK(o.has_value() && (*o).v == (v ^ w), "in_place two");
        break;
      }
      case 2: {
        O o;
        try {
          o.emplace(v);
          CHECK(!t, "emplace throws as scheduled");
        }
        catch (Boom const &) {
          CHECK(!o.has_value(), "emplace that threw leaves it empty");
          CHECK(W.nflags == 1 && W.nlive == 0, "flag restored");
        }
        o.reset();
        o.emplace(w);
        CHECK(o.has_value() && (*o).v == w, "emplace");
        break;
      }
      default: {
        O o(std::nullopt);
        o.reset();
        CHECK(W.nflags == 1 && !o.has_value(), "empty");
        W.throw_in = 0;
        o.emplace(v);
        CHECK(W.nflags == 0 && o.has_value(), "engaged");
        o = std::nullopt;
        CHECK(W.nflags == 1 && !o.has_value(), "empty again");
        break;
      }
      }
    }
    catch (Boom const &) {
      CHECK(t == 1 && way < 2, "exception as scheduled");
      vp_cover("threw");
    }
  }
  CHECK(W.nlive == 0 && W.nflags == 0, "nothing left");
  vp_cover("done");
}
VP_HARNESS(pinned_inpl) { pinned<tiny::optional_inplace<Pinned, TrackFM<Pinned>>, Pinned>(); }

VP_HARNESS(transform_flags)
{
  W.clear();
  int v = vp_int("v");
  vp_assume(v != kReserved);
  unsigned const st = vp_choose(2, "engaged");
  unsigned const t = vp_choose(3, "throw"); // 0 no, 1 the callable, 2 the payload's construction
  {
    tiny::optional<int> src;
    if (st)
      src = v;
    W.recording = true;
    try {
      W.throw_in = t == 2 ? 1 : 0;
      auto r = src.transform([&](int x) -> RS {
        if (t == 1)
          throw Boom{1};
        return RS(x);
      });
      static_assert(std::is_same_v<decltype(r), tiny::optional<RS>>);
      CHECK(r.has_value() == (st != 0), "result state");
      CHECK(W.nlive == (st ? 1 : 0) && W.nflags == (st ? 0 : 1), "one payload or one flag");
      if (st)
        CHECK((*r).v == v, "result value");
      vp_cover("completed");
    }
    catch (Boom const &) {
      CHECK(st && t, "exception as scheduled");
      vp_cover("threw");
    }
    CHECK(src.has_value() == (st != 0), "source untouched");
  }
  CHECK(W.nlive == 0 && W.nflags == 0, "nothing left");
}
